From 867a1aa685361eae04b3efc8a658ba7a3fa0dc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:35 +0000
Subject: [PATCH 001/106] fix: tell bech32 addresses from base58 ones by the
 full human-readable part

Every HC mainnet address starts with the prefix 'Hs', and the ZEC prefixes
have an empty bech32 prefix, so no output could be built for them; bech32
outputs of cxc, hc, omni and zencash fell through to the base58 decoder.
---
 btcTransaction/txOut.go     | 2 +-
 cxcTransaction/txAsset.go   | 3 ++-
 cxcTransaction/txOut.go     | 3 ++-
 hcTransaction/txOut.go      | 3 ++-
 omniTransaction/txOut.go    | 3 ++-
 zencashTransaction/txOut.go | 3 ++-
 6 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/btcTransaction/txOut.go b/btcTransaction/txOut.go
index ff18646..b13bde1 100644
--- a/btcTransaction/txOut.go
+++ b/btcTransaction/txOut.go
@@ -27,7 +27,7 @@ func newTxOutForEmptyTrans(vout []Vout, addressPrefix AddressPrefix) ([]TxOut, e
 	for _, v := range vout {
 		amount := uint64ToLittleEndianBytes(v.Amount)
 
-		if strings.Index(v.Address, prefixStr) == 0 {
+		if prefixStr != "" && strings.HasPrefix(v.Address, prefixStr+"1") {
 			redeem, err := Bech32Decode(v.Address)
 			if err != nil {
 				return nil, errors.New("Invalid bech32 type address!")
diff --git a/cxcTransaction/txAsset.go b/cxcTransaction/txAsset.go
index 43b6f06..e31df8b 100644
--- a/cxcTransaction/txAsset.go
+++ b/cxcTransaction/txAsset.go
@@ -30,7 +30,7 @@ func getTransferAssetWithPayload(tos []AssetTransfer, addressPrefix AddressPrefi
 
 	ret := make([]TxOut, 0)
 	for _, to := range tos {
-		if strings.Index(to.Address, prefixStr) == 0 {
+		if prefixStr != "" && strings.HasPrefix(to.Address, prefixStr+"1") {
 			redeem, err := Bech32Decode(to.Address)
 			if err != nil {
 				return nil, errors.New("Invalid bech32 type address!")
@@ -46,6 +46,7 @@ func getTransferAssetWithPayload(tos []AssetTransfer, addressPrefix AddressPrefi
 			redeem = append(redeem, payload...)
 			redeem = append(redeem, OpDrop)
 			ret = append(ret, TxOut{uint64ToLittleEndianBytes(0), redeem})
+			continue
 		}
 
 		prefix, hash, err := DecodeCheck(to.Address)
diff --git a/cxcTransaction/txOut.go b/cxcTransaction/txOut.go
index 03088fa..579e842 100644
--- a/cxcTransaction/txOut.go
+++ b/cxcTransaction/txOut.go
@@ -25,7 +25,7 @@ func newTxOutForEmptyTrans(vout []Vout, addressPrefix AddressPrefix) ([]TxOut, e
 	for _, v := range vout {
 		amount := uint64ToLittleEndianBytes(v.Amount)
 
-		if strings.Index(v.Address, prefixStr) == 0 {
+		if prefixStr != "" && strings.HasPrefix(v.Address, prefixStr+"1") {
 			redeem, err := Bech32Decode(v.Address)
 			if err != nil {
 				return nil, errors.New("Invalid bech32 type address!")
@@ -35,6 +35,7 @@ func newTxOutForEmptyTrans(vout []Vout, addressPrefix AddressPrefix) ([]TxOut, e
 			redeem = append([]byte{0x00}, redeem...)
 
 			ret = append(ret, TxOut{amount, redeem})
+			continue
 		}
 
 		prefix, hash, err := DecodeCheck(v.Address)
diff --git a/hcTransaction/txOut.go b/hcTransaction/txOut.go
index 36c4f52..36ac134 100644
--- a/hcTransaction/txOut.go
+++ b/hcTransaction/txOut.go
@@ -25,7 +25,7 @@ func newTxOutForEmptyTrans(vout []Vout, addressPrefix AddressPrefix) ([]TxOut, e
 	for _, v := range vout {
 		amount := uint64ToLittleEndianBytes(v.Amount)
 
-		if strings.Index(v.Address, prefixStr) == 0 {
+		if prefixStr != "" && strings.HasPrefix(v.Address, prefixStr+"1") {
 			redeem, err := Bech32Decode(v.Address)
 			if err != nil {
 				return nil, errors.New("Invalid bech32 type address!")
@@ -35,6 +35,7 @@ func newTxOutForEmptyTrans(vout []Vout, addressPrefix AddressPrefix) ([]TxOut, e
 			redeem = append([]byte{0x00}, redeem...)
 
 			ret = append(ret, TxOut{amount, redeem})
+			continue
 		}
 
 		prefix, hash, err := DecodeCheck(v.Address)
diff --git a/omniTransaction/txOut.go b/omniTransaction/txOut.go
index 5539515..cd5a85c 100644
--- a/omniTransaction/txOut.go
+++ b/omniTransaction/txOut.go
@@ -25,7 +25,7 @@ func newTxOutForEmptyTrans(vout []Vout, omniDetail OmniStruct, addressPrefix Add
 	for _, v := range vout {
 		amount := uint64ToLittleEndianBytes(v.Amount)
 
-		if strings.Index(v.Address, prefixStr) == 0 {
+		if prefixStr != "" && strings.HasPrefix(v.Address, prefixStr+"1") {
 			redeem, err := Bech32Decode(v.Address)
 			if err != nil {
 				return nil, errors.New("Invalid bech32 type address!")
@@ -35,6 +35,7 @@ func newTxOutForEmptyTrans(vout []Vout, omniDetail OmniStruct, addressPrefix Add
 			redeem = append([]byte{0x00}, redeem...)
 
 			ret = append(ret, TxOut{amount, redeem})
+			continue
 		}
 
 		prefix, hash, err := DecodeCheck(v.Address)
diff --git a/zencashTransaction/txOut.go b/zencashTransaction/txOut.go
index 73ea817..45f3b60 100644
--- a/zencashTransaction/txOut.go
+++ b/zencashTransaction/txOut.go
@@ -42,7 +42,7 @@ func newTxOutForEmptyTrans(vout []Vout, addressPrefix AddressPrefix, blockHash s
 	for _, v := range vout {
 		amount := uint64ToLittleEndianBytes(v.Amount)
 
-		if strings.Index(v.Address, prefixStr) == 0 {
+		if prefixStr != "" && strings.HasPrefix(v.Address, prefixStr+"1") {
 			redeem, err := Bech32Decode(v.Address)
 			if err != nil {
 				return nil, errors.New("Invalid bech32 type address!")
@@ -52,6 +52,7 @@ func newTxOutForEmptyTrans(vout []Vout, addressPrefix AddressPrefix, blockHash s
 			redeem = append([]byte{0x00}, redeem...)
 
 			ret = append(ret, TxOut{amount: amount, lockScript: redeem})
+			continue
 		}
 
 		prefix, hash, err := DecodeCheck(v.Address)
-- 
2.43.0


From de021f15a05e17848e99c4641446fd27404c8b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:45 +0000
Subject: [PATCH 002/106] fix: keep zencash block heights positive in the
 replay-protection script

---
 zencashTransaction/txOut.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zencashTransaction/txOut.go b/zencashTransaction/txOut.go
index 45f3b60..b54b3f0 100644
--- a/zencashTransaction/txOut.go
+++ b/zencashTransaction/txOut.go
@@ -38,6 +38,10 @@ func newTxOutForEmptyTrans(vout []Vout, addressPrefix AddressPrefix, blockHash s
 		}
 	}
 	blockHeightBytes := reverseBytes(tmp[zerocount:])
+	if n := len(blockHeightBytes); n > 0 && blockHeightBytes[n-1]&0x80 != 0 {
+		// script numbers are signed: keep the height positive
+		blockHeightBytes = append(blockHeightBytes, 0x00)
+	}
 
 	for _, v := range vout {
 		amount := uint64ToLittleEndianBytes(v.Amount)
-- 
2.43.0


From f73b1073b4e5087c10e5ee087162409b8cc64341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:45 +0000
Subject: [PATCH 003/106] fix: reading a transaction id does not reverse the
 transaction's own bytes

---
 bigbangTransaction/txUtils.go     | 2 +-
 bitcoincashTransaction/txUtils.go | 2 +-
 bitcoinsvTransaction/txUtils.go   | 2 +-
 btcLikeTxDriver/utils.go          | 2 +-
 btcTransaction/txUtils.go         | 2 +-
 cxcTransaction/txUtils.go         | 2 +-
 hcTransaction/txUtils.go          | 2 +-
 hypercashTransaction/txUtils.go   | 2 +-
 mateverseTransaction/txUtils.go   | 2 +-
 omniTransaction/txUtils.go        | 2 +-
 ontologyTransaction/txUtils.go    | 2 +-
 zencashTransaction/txUtils.go     | 2 +-
 12 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/bigbangTransaction/txUtils.go b/bigbangTransaction/txUtils.go
index 833e89c..3d93928 100644
--- a/bigbangTransaction/txUtils.go
+++ b/bigbangTransaction/txUtils.go
@@ -28,7 +28,7 @@ func reverseHexToBytes(hexVar string) ([]byte, error) {
 
 //reverseBytesToHex change the endian of the input byte array then encode it to hex string
 func reverseBytesToHex(bytesVar []byte) string {
-	return hex.EncodeToString(reverseBytes(bytesVar))
+	return hex.EncodeToString(reverseBytes(append([]byte{}, bytesVar...)))
 }
 
 
diff --git a/bitcoincashTransaction/txUtils.go b/bitcoincashTransaction/txUtils.go
index bd720a6..9e7a7c5 100644
--- a/bitcoincashTransaction/txUtils.go
+++ b/bitcoincashTransaction/txUtils.go
@@ -40,7 +40,7 @@ func reverseHexToBytes(hexVar string) ([]byte, error) {
 
 //reverseBytesToHex change the endian of the input byte array then encode it to hex string
 func reverseBytesToHex(bytesVar []byte) string {
-	return hex.EncodeToString(reverseBytes(bytesVar))
+	return hex.EncodeToString(reverseBytes(append([]byte{}, bytesVar...)))
 }
 
 //uint16ToLittleEndianBytes
diff --git a/bitcoinsvTransaction/txUtils.go b/bitcoinsvTransaction/txUtils.go
index e5af84f..bbc3217 100644
--- a/bitcoinsvTransaction/txUtils.go
+++ b/bitcoinsvTransaction/txUtils.go
@@ -40,7 +40,7 @@ func reverseHexToBytes(hexVar string) ([]byte, error) {
 
 //reverseBytesToHex change the endian of the input byte array then encode it to hex string
 func reverseBytesToHex(bytesVar []byte) string {
-	return hex.EncodeToString(reverseBytes(bytesVar))
+	return hex.EncodeToString(reverseBytes(append([]byte{}, bytesVar...)))
 }
 
 //uint16ToLittleEndianBytes
diff --git a/btcLikeTxDriver/utils.go b/btcLikeTxDriver/utils.go
index 3fc84d4..120af24 100644
--- a/btcLikeTxDriver/utils.go
+++ b/btcLikeTxDriver/utils.go
@@ -28,7 +28,7 @@ func reverseHexToBytes(hexVar string) ([]byte, error) {
 
 //reverseBytesToHex change the endian of the input byte array then encode it to hex string
 func reverseBytesToHex(bytesVar []byte) string {
-	return hex.EncodeToString(reverseBytes(bytesVar))
+	return hex.EncodeToString(reverseBytes(append([]byte{}, bytesVar...)))
 }
 
 //uint32ToLittleEndianBytes
diff --git a/btcTransaction/txUtils.go b/btcTransaction/txUtils.go
index 141260c..51ade1f 100644
--- a/btcTransaction/txUtils.go
+++ b/btcTransaction/txUtils.go
@@ -40,7 +40,7 @@ func reverseHexToBytes(hexVar string) ([]byte, error) {
 
 //reverseBytesToHex change the endian of the input byte array then encode it to hex string
 func reverseBytesToHex(bytesVar []byte) string {
-	return hex.EncodeToString(reverseBytes(bytesVar))
+	return hex.EncodeToString(reverseBytes(append([]byte{}, bytesVar...)))
 }
 
 //uint16ToLittleEndianBytes
diff --git a/cxcTransaction/txUtils.go b/cxcTransaction/txUtils.go
index 1d2b04b..176ba4e 100644
--- a/cxcTransaction/txUtils.go
+++ b/cxcTransaction/txUtils.go
@@ -40,7 +40,7 @@ func reverseHexToBytes(hexVar string) ([]byte, error) {
 
 //reverseBytesToHex change the endian of the input byte array then encode it to hex string
 func reverseBytesToHex(bytesVar []byte) string {
-	return hex.EncodeToString(reverseBytes(bytesVar))
+	return hex.EncodeToString(reverseBytes(append([]byte{}, bytesVar...)))
 }
 
 //uint16ToLittleEndianBytes
diff --git a/hcTransaction/txUtils.go b/hcTransaction/txUtils.go
index ea4dc67..5c10266 100644
--- a/hcTransaction/txUtils.go
+++ b/hcTransaction/txUtils.go
@@ -40,7 +40,7 @@ func reverseHexToBytes(hexVar string) ([]byte, error) {
 
 //reverseBytesToHex change the endian of the input byte array then encode it to hex string
 func reverseBytesToHex(bytesVar []byte) string {
-	return hex.EncodeToString(reverseBytes(bytesVar))
+	return hex.EncodeToString(reverseBytes(append([]byte{}, bytesVar...)))
 }
 
 //uint16ToLittleEndianBytes
diff --git a/hypercashTransaction/txUtils.go b/hypercashTransaction/txUtils.go
index 075a6bb..3f68709 100644
--- a/hypercashTransaction/txUtils.go
+++ b/hypercashTransaction/txUtils.go
@@ -29,7 +29,7 @@ func reverseHexToBytes(hexVar string) ([]byte, error) {
 
 //reverseBytesToHex change the endian of the input byte array then encode it to hex string
 func reverseBytesToHex(bytesVar []byte) string {
-	return hex.EncodeToString(reverseBytes(bytesVar))
+	return hex.EncodeToString(reverseBytes(append([]byte{}, bytesVar...)))
 }
 
 func uint16ToBigEndianBytes(data uint16) []byte {
diff --git a/mateverseTransaction/txUtils.go b/mateverseTransaction/txUtils.go
index 21d8dd7..9d50377 100644
--- a/mateverseTransaction/txUtils.go
+++ b/mateverseTransaction/txUtils.go
@@ -41,7 +41,7 @@ func reverseHexToBytes(hexVar string) ([]byte, error) {
 
 //reverseBytesToHex change the endian of the input byte array then encode it to hex string
 func reverseBytesToHex(bytesVar []byte) string {
-	return hex.EncodeToString(reverseBytes(bytesVar))
+	return hex.EncodeToString(reverseBytes(append([]byte{}, bytesVar...)))
 }
 
 //uint16ToLittleEndianBytes
diff --git a/omniTransaction/txUtils.go b/omniTransaction/txUtils.go
index 0b571a3..2cfe632 100644
--- a/omniTransaction/txUtils.go
+++ b/omniTransaction/txUtils.go
@@ -40,7 +40,7 @@ func reverseHexToBytes(hexVar string) ([]byte, error) {
 
 //reverseBytesToHex change the endian of the input byte array then encode it to hex string
 func reverseBytesToHex(bytesVar []byte) string {
-	return hex.EncodeToString(reverseBytes(bytesVar))
+	return hex.EncodeToString(reverseBytes(append([]byte{}, bytesVar...)))
 }
 
 //uint16ToLittleEndianBytes
diff --git a/ontologyTransaction/txUtils.go b/ontologyTransaction/txUtils.go
index c4b23f3..b6de0a0 100644
--- a/ontologyTransaction/txUtils.go
+++ b/ontologyTransaction/txUtils.go
@@ -29,7 +29,7 @@ func reverseHexToBytes(hexVar string) ([]byte, error) {
 
 //reverseBytesToHex change the endian of the input byte array then encode it to hex string
 func reverseBytesToHex(bytesVar []byte) string {
-	return hex.EncodeToString(reverseBytes(bytesVar))
+	return hex.EncodeToString(reverseBytes(append([]byte{}, bytesVar...)))
 }
 
 //uint16ToLittleEndianBytes
diff --git a/zencashTransaction/txUtils.go b/zencashTransaction/txUtils.go
index cfbdb71..6ce82e7 100644
--- a/zencashTransaction/txUtils.go
+++ b/zencashTransaction/txUtils.go
@@ -40,7 +40,7 @@ func reverseHexToBytes(hexVar string) ([]byte, error) {
 
 //reverseBytesToHex change the endian of the input byte array then encode it to hex string
 func reverseBytesToHex(bytesVar []byte) string {
-	return hex.EncodeToString(reverseBytes(bytesVar))
+	return hex.EncodeToString(reverseBytes(append([]byte{}, bytesVar...)))
 }
 
 //uint16ToLittleEndianBytes
-- 
2.43.0


From a4e25df2b88237a7617e0cc144fa2e0db2c2f84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:23 +0000
Subject: [PATCH 004/106] fix: encode transaction counts and script lengths
 above 252 as compact sizes

---
 bitcoincashTransaction/txHash.go   |  4 +--
 bitcoincashTransaction/txIn.go     |  2 +-
 bitcoincashTransaction/txOut.go    |  2 +-
 bitcoincashTransaction/txStruct.go | 41 +++++++++++++++---------------
 bitcoincashTransaction/txUtils.go  | 27 ++++++++++++++++++++
 bitcoinsvTransaction/txHash.go     |  4 +--
 bitcoinsvTransaction/txIn.go       |  2 +-
 bitcoinsvTransaction/txOut.go      |  2 +-
 bitcoinsvTransaction/txStruct.go   | 41 +++++++++++++++---------------
 bitcoinsvTransaction/txUtils.go    | 27 ++++++++++++++++++++
 btcTransaction/txHash.go           |  4 +--
 btcTransaction/txIn.go             |  2 +-
 btcTransaction/txOut.go            |  2 +-
 btcTransaction/txStruct.go         | 41 +++++++++++++++---------------
 btcTransaction/txUtils.go          | 27 ++++++++++++++++++++
 cxcTransaction/txHash.go           |  4 +--
 cxcTransaction/txIn.go             |  2 +-
 cxcTransaction/txOut.go            |  2 +-
 cxcTransaction/txStruct.go         | 41 +++++++++++++++---------------
 cxcTransaction/txUtils.go          | 27 ++++++++++++++++++++
 hcTransaction/txHash.go            |  4 +--
 hcTransaction/txIn.go              |  2 +-
 hcTransaction/txOut.go             |  2 +-
 hcTransaction/txStruct.go          | 41 +++++++++++++++---------------
 hcTransaction/txUtils.go           | 27 ++++++++++++++++++++
 omniTransaction/txHash.go          |  4 +--
 omniTransaction/txIn.go            |  2 +-
 omniTransaction/txOut.go           |  2 +-
 omniTransaction/txStruct.go        | 41 +++++++++++++++---------------
 omniTransaction/txUtils.go         | 27 ++++++++++++++++++++
 zencashTransaction/txHash.go       |  4 +--
 zencashTransaction/txIn.go         |  2 +-
 zencashTransaction/txOut.go        |  2 +-
 zencashTransaction/txStruct.go     | 41 +++++++++++++++---------------
 zencashTransaction/txUtils.go      | 27 ++++++++++++++++++++
 35 files changed, 357 insertions(+), 175 deletions(-)

diff --git a/bitcoincashTransaction/txHash.go b/bitcoincashTransaction/txHash.go
index e13ef84..00714cd 100644
--- a/bitcoincashTransaction/txHash.go
+++ b/bitcoincashTransaction/txHash.go
@@ -118,7 +118,7 @@ func (t Transaction) calcSegwitSerializationHashes() ([]byte, []byte, []byte) {
 	}
 	for _, vout := range t.Vouts {
 		hashOutputs = append(hashOutputs, vout.amount...)
-		hashOutputs = append(hashOutputs, byte(len(vout.lockScript)))
+		hashOutputs = append(hashOutputs, compactSize(len(vout.lockScript))...)
 		hashOutputs = append(hashOutputs, vout.lockScript...)
 	}
 	return owcrypt.Hash(hashPrevouts, 0, owcrypt.HASH_ALG_DOUBLE_SHA256),
@@ -162,7 +162,7 @@ func (t Transaction) getSegwitBytesForSig(reddemBytes, txid, vout, sequence []by
 		return nil, err
 	}
 
-	sigBytes = append(sigBytes, byte(len(scriptCode)))
+	sigBytes = append(sigBytes, compactSize(len(scriptCode))...)
 	sigBytes = append(sigBytes, scriptCode...)
 
 	if amount == 0 {
diff --git a/bitcoincashTransaction/txIn.go b/bitcoincashTransaction/txIn.go
index eff3b46..1ad7e20 100644
--- a/bitcoincashTransaction/txIn.go
+++ b/bitcoincashTransaction/txIn.go
@@ -79,7 +79,7 @@ func (in TxIn) toBytes(SegwitON bool) ([]byte, error) {
 		if in.scriptPub == nil && in.scriptSig == nil {
 			ret = append(ret, byte(0x00))
 		} else {
-			ret = append(ret, byte(len(in.scriptPub)))
+			ret = append(ret, compactSize(len(in.scriptPub))...)
 			ret = append(ret, in.scriptPub...)
 		}
 	} else if in.inType == TypeP2PKH {
diff --git a/bitcoincashTransaction/txOut.go b/bitcoincashTransaction/txOut.go
index c9af95c..aaabfc5 100644
--- a/bitcoincashTransaction/txOut.go
+++ b/bitcoincashTransaction/txOut.go
@@ -101,7 +101,7 @@ func (out TxOut) toBytes() ([]byte, error) {
 
 	ret := []byte{}
 	ret = append(ret, out.amount...)
-	ret = append(ret, byte(len(out.lockScript)))
+	ret = append(ret, compactSize(len(out.lockScript))...)
 	ret = append(ret, out.lockScript...)
 
 	return ret, nil
diff --git a/bitcoincashTransaction/txStruct.go b/bitcoincashTransaction/txStruct.go
index 4920b46..d0d90c7 100644
--- a/bitcoincashTransaction/txStruct.go
+++ b/bitcoincashTransaction/txStruct.go
@@ -78,7 +78,7 @@ func (t Transaction) encodeToBytes(SegwitON bool) ([]byte, error) {
 		ret = append(ret, SegWitSymbol, SegWitVersion)
 	}
 
-	ret = append(ret, byte(len(t.Vins)))
+	ret = append(ret, compactSize(len(t.Vins))...)
 	for _, in := range t.Vins {
 		inBytes, err := in.toBytes(SegwitON)
 		if err != nil {
@@ -87,7 +87,7 @@ func (t Transaction) encodeToBytes(SegwitON bool) ([]byte, error) {
 		ret = append(ret, inBytes...)
 	}
 
-	ret = append(ret, byte(len(t.Vouts)))
+	ret = append(ret, compactSize(len(t.Vouts))...)
 
 	for _, out := range t.Vouts {
 		outBytes, err := out.toBytes()
@@ -143,16 +143,16 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 		index += 2
 	}
 
-	if index+1 > limit {
-		return nil, errors.New("Invalid transaction data length!")
+	numOfVins, size, err := readCompactSize(txBytes[index:])
+	if err != nil {
+		return nil, err
 	}
-	numOfVins := txBytes[index]
-	index++
+	index += size
 	if numOfVins == 0 {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
-	for i := byte(0); i < numOfVins; i++ {
+	for i := 0; i < numOfVins; i++ {
 		var tmpTxIn TxIn
 
 		if index+32 > limit {
@@ -239,17 +239,16 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 		rawTx.Vins = append(rawTx.Vins, tmpTxIn)
 	}
 
-	if index+1 > limit {
-		return nil, errors.New("Invalid transaction data length!")
+	numOfVouts, size, err := readCompactSize(txBytes[index:])
+	if err != nil {
+		return nil, err
 	}
-
-	numOfVouts := txBytes[index]
-	index++
+	index += size
 	if numOfVouts == 0 {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
-	for i := byte(0); i < numOfVouts; i++ {
+	for i := 0; i < numOfVouts; i++ {
 		var tmpTxOut TxOut
 
 		if index+8 > limit {
@@ -258,27 +257,27 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 		tmpTxOut.amount = txBytes[index : index+8]
 		index += 8
 
-		if index+1 > limit {
-			return nil, errors.New("Invalid transaction data length!")
+		lockScriptLen, size, err := readCompactSize(txBytes[index:])
+		if err != nil {
+			return nil, err
 		}
-		lockScriptLen := txBytes[index]
-		index++
+		index += size
 
 		if lockScriptLen == 0 {
 			return nil, errors.New("Invalid transaction data!")
 		}
 
-		if index+int(lockScriptLen) > limit {
+		if index+lockScriptLen > limit {
 			return nil, errors.New("Invalid transaction data length!")
 		}
-		tmpTxOut.lockScript = txBytes[index : index+int(lockScriptLen)]
-		index += int(lockScriptLen)
+		tmpTxOut.lockScript = txBytes[index : index+lockScriptLen]
+		index += lockScriptLen
 
 		rawTx.Vouts = append(rawTx.Vouts, tmpTxOut)
 	}
 
 	if rawTx.Witness {
-		for i := byte(0); i < numOfVins; i++ {
+		for i := 0; i < numOfVins; i++ {
 			if index+1 > limit {
 				return nil, errors.New("Invalid transaction data length!")
 			}
diff --git a/bitcoincashTransaction/txUtils.go b/bitcoincashTransaction/txUtils.go
index 9e7a7c5..43ab421 100644
--- a/bitcoincashTransaction/txUtils.go
+++ b/bitcoincashTransaction/txUtils.go
@@ -122,3 +122,30 @@ func uint64ToBigEndianBytes(data uint64) []byte {
 func bigEndianBytesToUint64(data []byte) uint64 {
 	return binary.BigEndian.Uint64(data)
 }
+
+//compactSize encodes a count or length the way the network serialization does
+func compactSize(n int) []byte {
+	if n < 0xFD {
+		return []byte{byte(n)}
+	}
+	if n <= 0xFFFF {
+		return append([]byte{0xFD}, uint16ToLittleEndianBytes(uint16(n))...)
+	}
+	return append([]byte{0xFE}, uint32ToLittleEndianBytes(uint32(n))...)
+}
+
+//readCompactSize decodes a count or length, it returns the value and the number of bytes read
+func readCompactSize(data []byte) (int, int, error) {
+	if len(data) < 1 {
+		return 0, 0, errors.New("Invalid transaction data length!")
+	}
+	if data[0] < 0xFD {
+		return int(data[0]), 1, nil
+	}
+	if data[0] == 0xFD && len(data) >= 3 {
+		if n := int(littleEndianBytesToUint16(data[1:3])); n >= 0xFD {
+			return n, 3, nil
+		}
+	}
+	return 0, 0, errors.New("Invalid transaction data length!")
+}
diff --git a/bitcoinsvTransaction/txHash.go b/bitcoinsvTransaction/txHash.go
index 99da856..cc000f5 100644
--- a/bitcoinsvTransaction/txHash.go
+++ b/bitcoinsvTransaction/txHash.go
@@ -119,7 +119,7 @@ func (t Transaction) calcSegwitSerializationHashes() ([]byte, []byte, []byte) {
 	}
 	for _, vout := range t.Vouts {
 		hashOutputs = append(hashOutputs, vout.amount...)
-		hashOutputs = append(hashOutputs, byte(len(vout.lockScript)))
+		hashOutputs = append(hashOutputs, compactSize(len(vout.lockScript))...)
 		hashOutputs = append(hashOutputs, vout.lockScript...)
 	}
 	return owcrypt.Hash(hashPrevouts, 0, owcrypt.HASH_ALG_DOUBLE_SHA256),
@@ -163,7 +163,7 @@ func (t Transaction) getSegwitBytesForSig(reddemBytes, txid, vout, sequence []by
 		return nil, err
 	}
 
-	sigBytes = append(sigBytes, byte(len(scriptCode)))
+	sigBytes = append(sigBytes, compactSize(len(scriptCode))...)
 	sigBytes = append(sigBytes, scriptCode...)
 
 	if amount == 0 {
diff --git a/bitcoinsvTransaction/txIn.go b/bitcoinsvTransaction/txIn.go
index 80b7a5b..1623335 100644
--- a/bitcoinsvTransaction/txIn.go
+++ b/bitcoinsvTransaction/txIn.go
@@ -79,7 +79,7 @@ func (in TxIn) toBytes(SegwitON bool) ([]byte, error) {
 		if in.scriptPub == nil && in.scriptSig == nil {
 			ret = append(ret, byte(0x00))
 		} else {
-			ret = append(ret, byte(len(in.scriptPub)))
+			ret = append(ret, compactSize(len(in.scriptPub))...)
 			ret = append(ret, in.scriptPub...)
 		}
 	} else if in.inType == TypeP2PKH {
diff --git a/bitcoinsvTransaction/txOut.go b/bitcoinsvTransaction/txOut.go
index 19501db..6ce9c17 100644
--- a/bitcoinsvTransaction/txOut.go
+++ b/bitcoinsvTransaction/txOut.go
@@ -101,7 +101,7 @@ func (out TxOut) toBytes() ([]byte, error) {
 
 	ret := []byte{}
 	ret = append(ret, out.amount...)
-	ret = append(ret, byte(len(out.lockScript)))
+	ret = append(ret, compactSize(len(out.lockScript))...)
 	ret = append(ret, out.lockScript...)
 
 	return ret, nil
diff --git a/bitcoinsvTransaction/txStruct.go b/bitcoinsvTransaction/txStruct.go
index 4f3394b..dcdd354 100644
--- a/bitcoinsvTransaction/txStruct.go
+++ b/bitcoinsvTransaction/txStruct.go
@@ -78,7 +78,7 @@ func (t Transaction) encodeToBytes(SegwitON bool) ([]byte, error) {
 		ret = append(ret, SegWitSymbol, SegWitVersion)
 	}
 
-	ret = append(ret, byte(len(t.Vins)))
+	ret = append(ret, compactSize(len(t.Vins))...)
 	for _, in := range t.Vins {
 		inBytes, err := in.toBytes(SegwitON)
 		if err != nil {
@@ -87,7 +87,7 @@ func (t Transaction) encodeToBytes(SegwitON bool) ([]byte, error) {
 		ret = append(ret, inBytes...)
 	}
 
-	ret = append(ret, byte(len(t.Vouts)))
+	ret = append(ret, compactSize(len(t.Vouts))...)
 
 	for _, out := range t.Vouts {
 		outBytes, err := out.toBytes()
@@ -143,16 +143,16 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 		index += 2
 	}
 
-	if index+1 > limit {
-		return nil, errors.New("Invalid transaction data length!")
+	numOfVins, size, err := readCompactSize(txBytes[index:])
+	if err != nil {
+		return nil, err
 	}
-	numOfVins := txBytes[index]
-	index++
+	index += size
 	if numOfVins == 0 {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
-	for i := byte(0); i < numOfVins; i++ {
+	for i := 0; i < numOfVins; i++ {
 		var tmpTxIn TxIn
 
 		if index+32 > limit {
@@ -239,17 +239,16 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 		rawTx.Vins = append(rawTx.Vins, tmpTxIn)
 	}
 
-	if index+1 > limit {
-		return nil, errors.New("Invalid transaction data length!")
+	numOfVouts, size, err := readCompactSize(txBytes[index:])
+	if err != nil {
+		return nil, err
 	}
-
-	numOfVouts := txBytes[index]
-	index++
+	index += size
 	if numOfVouts == 0 {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
-	for i := byte(0); i < numOfVouts; i++ {
+	for i := 0; i < numOfVouts; i++ {
 		var tmpTxOut TxOut
 
 		if index+8 > limit {
@@ -258,27 +257,27 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 		tmpTxOut.amount = txBytes[index : index+8]
 		index += 8
 
-		if index+1 > limit {
-			return nil, errors.New("Invalid transaction data length!")
+		lockScriptLen, size, err := readCompactSize(txBytes[index:])
+		if err != nil {
+			return nil, err
 		}
-		lockScriptLen := txBytes[index]
-		index++
+		index += size
 
 		if lockScriptLen == 0 {
 			return nil, errors.New("Invalid transaction data!")
 		}
 
-		if index+int(lockScriptLen) > limit {
+		if index+lockScriptLen > limit {
 			return nil, errors.New("Invalid transaction data length!")
 		}
-		tmpTxOut.lockScript = txBytes[index : index+int(lockScriptLen)]
-		index += int(lockScriptLen)
+		tmpTxOut.lockScript = txBytes[index : index+lockScriptLen]
+		index += lockScriptLen
 
 		rawTx.Vouts = append(rawTx.Vouts, tmpTxOut)
 	}
 
 	if rawTx.Witness {
-		for i := byte(0); i < numOfVins; i++ {
+		for i := 0; i < numOfVins; i++ {
 			if index+1 > limit {
 				return nil, errors.New("Invalid transaction data length!")
 			}
diff --git a/bitcoinsvTransaction/txUtils.go b/bitcoinsvTransaction/txUtils.go
index bbc3217..46f48c9 100644
--- a/bitcoinsvTransaction/txUtils.go
+++ b/bitcoinsvTransaction/txUtils.go
@@ -122,3 +122,30 @@ func uint64ToBigEndianBytes(data uint64) []byte {
 func bigEndianBytesToUint64(data []byte) uint64 {
 	return binary.BigEndian.Uint64(data)
 }
+
+//compactSize encodes a count or length the way the network serialization does
+func compactSize(n int) []byte {
+	if n < 0xFD {
+		return []byte{byte(n)}
+	}
+	if n <= 0xFFFF {
+		return append([]byte{0xFD}, uint16ToLittleEndianBytes(uint16(n))...)
+	}
+	return append([]byte{0xFE}, uint32ToLittleEndianBytes(uint32(n))...)
+}
+
+//readCompactSize decodes a count or length, it returns the value and the number of bytes read
+func readCompactSize(data []byte) (int, int, error) {
+	if len(data) < 1 {
+		return 0, 0, errors.New("Invalid transaction data length!")
+	}
+	if data[0] < 0xFD {
+		return int(data[0]), 1, nil
+	}
+	if data[0] == 0xFD && len(data) >= 3 {
+		if n := int(littleEndianBytesToUint16(data[1:3])); n >= 0xFD {
+			return n, 3, nil
+		}
+	}
+	return 0, 0, errors.New("Invalid transaction data length!")
+}
diff --git a/btcTransaction/txHash.go b/btcTransaction/txHash.go
index edc1edc..0ab5dff 100644
--- a/btcTransaction/txHash.go
+++ b/btcTransaction/txHash.go
@@ -122,7 +122,7 @@ func (t Transaction) calcSegwitSerializationHashes() ([]byte, []byte, []byte) {
 	}
 	for _, vout := range t.Vouts {
 		hashOutputs = append(hashOutputs, vout.amount...)
-		hashOutputs = append(hashOutputs, byte(len(vout.lockScript)))
+		hashOutputs = append(hashOutputs, compactSize(len(vout.lockScript))...)
 		hashOutputs = append(hashOutputs, vout.lockScript...)
 	}
 	return owcrypt.Hash(hashPrevouts, 0, owcrypt.HASH_ALG_DOUBLE_SHA256),
@@ -166,7 +166,7 @@ func (t Transaction) getSegwitBytesForSig(reddemBytes, txid, vout, sequence []by
 		return nil, err
 	}
 
-	sigBytes = append(sigBytes, byte(len(scriptCode)))
+	sigBytes = append(sigBytes, compactSize(len(scriptCode))...)
 	sigBytes = append(sigBytes, scriptCode...)
 
 	if amount == 0 {
diff --git a/btcTransaction/txIn.go b/btcTransaction/txIn.go
index ded31f8..348d848 100644
--- a/btcTransaction/txIn.go
+++ b/btcTransaction/txIn.go
@@ -79,7 +79,7 @@ func (in TxIn) toBytes(SegwitON bool) ([]byte, error) {
 		if in.scriptPub == nil && in.scriptSig == nil {
 			ret = append(ret, byte(0x00))
 		} else {
-			ret = append(ret, byte(len(in.scriptPub)))
+			ret = append(ret, compactSize(len(in.scriptPub))...)
 			ret = append(ret, in.scriptPub...)
 		}
 	} else if in.inType == TypeP2PKH {
diff --git a/btcTransaction/txOut.go b/btcTransaction/txOut.go
index b13bde1..4923126 100644
--- a/btcTransaction/txOut.go
+++ b/btcTransaction/txOut.go
@@ -76,7 +76,7 @@ func (out TxOut) toBytes() ([]byte, error) {
 
 	ret := []byte{}
 	ret = append(ret, out.amount...)
-	ret = append(ret, byte(len(out.lockScript)))
+	ret = append(ret, compactSize(len(out.lockScript))...)
 	ret = append(ret, out.lockScript...)
 
 	return ret, nil
diff --git a/btcTransaction/txStruct.go b/btcTransaction/txStruct.go
index b16bb21..e0dd6c2 100644
--- a/btcTransaction/txStruct.go
+++ b/btcTransaction/txStruct.go
@@ -57,7 +57,7 @@ func (t Transaction) encodeToBytes(SegwitON bool) ([]byte, error) {
 		ret = append(ret, SegWitSymbol, SegWitVersion)
 	}
 
-	ret = append(ret, byte(len(t.Vins)))
+	ret = append(ret, compactSize(len(t.Vins))...)
 	for _, in := range t.Vins {
 		inBytes, err := in.toBytes(SegwitON)
 		if err != nil {
@@ -66,7 +66,7 @@ func (t Transaction) encodeToBytes(SegwitON bool) ([]byte, error) {
 		ret = append(ret, inBytes...)
 	}
 
-	ret = append(ret, byte(len(t.Vouts)))
+	ret = append(ret, compactSize(len(t.Vouts))...)
 
 	for _, out := range t.Vouts {
 		outBytes, err := out.toBytes()
@@ -122,16 +122,16 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 		index += 2
 	}
 
-	if index+1 > limit {
-		return nil, errors.New("Invalid transaction data length!")
+	numOfVins, size, err := readCompactSize(txBytes[index:])
+	if err != nil {
+		return nil, err
 	}
-	numOfVins := txBytes[index]
-	index++
+	index += size
 	if numOfVins == 0 {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
-	for i := byte(0); i < numOfVins; i++ {
+	for i := 0; i < numOfVins; i++ {
 		var tmpTxIn TxIn
 
 		if index+32 > limit {
@@ -218,17 +218,16 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 		rawTx.Vins = append(rawTx.Vins, tmpTxIn)
 	}
 
-	if index+1 > limit {
-		return nil, errors.New("Invalid transaction data length!")
+	numOfVouts, size, err := readCompactSize(txBytes[index:])
+	if err != nil {
+		return nil, err
 	}
-
-	numOfVouts := txBytes[index]
-	index++
+	index += size
 	if numOfVouts == 0 {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
-	for i := byte(0); i < numOfVouts; i++ {
+	for i := 0; i < numOfVouts; i++ {
 		var tmpTxOut TxOut
 
 		if index+8 > limit {
@@ -237,27 +236,27 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 		tmpTxOut.amount = txBytes[index : index+8]
 		index += 8
 
-		if index+1 > limit {
-			return nil, errors.New("Invalid transaction data length!")
+		lockScriptLen, size, err := readCompactSize(txBytes[index:])
+		if err != nil {
+			return nil, err
 		}
-		lockScriptLen := txBytes[index]
-		index++
+		index += size
 
 		if lockScriptLen == 0 {
 			return nil, errors.New("Invalid transaction data!")
 		}
 
-		if index+int(lockScriptLen) > limit {
+		if index+lockScriptLen > limit {
 			return nil, errors.New("Invalid transaction data length!")
 		}
-		tmpTxOut.lockScript = txBytes[index : index+int(lockScriptLen)]
-		index += int(lockScriptLen)
+		tmpTxOut.lockScript = txBytes[index : index+lockScriptLen]
+		index += lockScriptLen
 
 		rawTx.Vouts = append(rawTx.Vouts, tmpTxOut)
 	}
 
 	if rawTx.Witness {
-		for i := byte(0); i < numOfVins; i++ {
+		for i := 0; i < numOfVins; i++ {
 			if index+1 > limit {
 				return nil, errors.New("Invalid transaction data length!")
 			}
diff --git a/btcTransaction/txUtils.go b/btcTransaction/txUtils.go
index 51ade1f..29a1c09 100644
--- a/btcTransaction/txUtils.go
+++ b/btcTransaction/txUtils.go
@@ -78,3 +78,30 @@ func uint64ToLittleEndianBytes(data uint64) []byte {
 func littleEndianBytesToUint64(data []byte) uint64 {
 	return binary.LittleEndian.Uint64(data)
 }
+
+//compactSize encodes a count or length the way the network serialization does
+func compactSize(n int) []byte {
+	if n < 0xFD {
+		return []byte{byte(n)}
+	}
+	if n <= 0xFFFF {
+		return append([]byte{0xFD}, uint16ToLittleEndianBytes(uint16(n))...)
+	}
+	return append([]byte{0xFE}, uint32ToLittleEndianBytes(uint32(n))...)
+}
+
+//readCompactSize decodes a count or length, it returns the value and the number of bytes read
+func readCompactSize(data []byte) (int, int, error) {
+	if len(data) < 1 {
+		return 0, 0, errors.New("Invalid transaction data length!")
+	}
+	if data[0] < 0xFD {
+		return int(data[0]), 1, nil
+	}
+	if data[0] == 0xFD && len(data) >= 3 {
+		if n := int(littleEndianBytesToUint16(data[1:3])); n >= 0xFD {
+			return n, 3, nil
+		}
+	}
+	return 0, 0, errors.New("Invalid transaction data length!")
+}
diff --git a/cxcTransaction/txHash.go b/cxcTransaction/txHash.go
index d61ed0b..fb73a5f 100644
--- a/cxcTransaction/txHash.go
+++ b/cxcTransaction/txHash.go
@@ -121,7 +121,7 @@ func (t Transaction) calcSegwitSerializationHashes() ([]byte, []byte, []byte) {
 	}
 	for _, vout := range t.Vouts {
 		hashOutputs = append(hashOutputs, vout.amount...)
-		hashOutputs = append(hashOutputs, byte(len(vout.lockScript)))
+		hashOutputs = append(hashOutputs, compactSize(len(vout.lockScript))...)
 		hashOutputs = append(hashOutputs, vout.lockScript...)
 	}
 	return owcrypt.Hash(hashPrevouts, 0, owcrypt.HASH_ALG_DOUBLE_SHA256),
@@ -165,7 +165,7 @@ func (t Transaction) getSegwitBytesForSig(reddemBytes, txid, vout, sequence []by
 		return nil, err
 	}
 
-	sigBytes = append(sigBytes, byte(len(scriptCode)))
+	sigBytes = append(sigBytes, compactSize(len(scriptCode))...)
 	sigBytes = append(sigBytes, scriptCode...)
 
 	if amount == 0 {
diff --git a/cxcTransaction/txIn.go b/cxcTransaction/txIn.go
index da2bdb4..8e4ce6a 100644
--- a/cxcTransaction/txIn.go
+++ b/cxcTransaction/txIn.go
@@ -79,7 +79,7 @@ func (in TxIn) toBytes(SegwitON bool) ([]byte, error) {
 		if in.scriptPub == nil && in.scriptSig == nil {
 			ret = append(ret, byte(0x00))
 		} else {
-			ret = append(ret, byte(len(in.scriptPub)))
+			ret = append(ret, compactSize(len(in.scriptPub))...)
 			ret = append(ret, in.scriptPub...)
 		}
 	} else if in.inType == TypeP2PKH {
diff --git a/cxcTransaction/txOut.go b/cxcTransaction/txOut.go
index 579e842..63d499d 100644
--- a/cxcTransaction/txOut.go
+++ b/cxcTransaction/txOut.go
@@ -73,7 +73,7 @@ func (out TxOut) toBytes() ([]byte, error) {
 
 	ret := []byte{}
 	ret = append(ret, out.amount...)
-	ret = append(ret, byte(len(out.lockScript)))
+	ret = append(ret, compactSize(len(out.lockScript))...)
 	ret = append(ret, out.lockScript...)
 
 	return ret, nil
diff --git a/cxcTransaction/txStruct.go b/cxcTransaction/txStruct.go
index b0f1750..506bab9 100644
--- a/cxcTransaction/txStruct.go
+++ b/cxcTransaction/txStruct.go
@@ -88,7 +88,7 @@ func (t Transaction) encodeToBytes(SegwitON bool) ([]byte, error) {
 		ret = append(ret, SegWitSymbol, SegWitVersion)
 	}
 
-	ret = append(ret, byte(len(t.Vins)))
+	ret = append(ret, compactSize(len(t.Vins))...)
 	for _, in := range t.Vins {
 		inBytes, err := in.toBytes(SegwitON)
 		if err != nil {
@@ -97,7 +97,7 @@ func (t Transaction) encodeToBytes(SegwitON bool) ([]byte, error) {
 		ret = append(ret, inBytes...)
 	}
 
-	ret = append(ret, byte(len(t.Vouts)))
+	ret = append(ret, compactSize(len(t.Vouts))...)
 
 	for _, out := range t.Vouts {
 		outBytes, err := out.toBytes()
@@ -153,16 +153,16 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 		index += 2
 	}
 
-	if index+1 > limit {
-		return nil, errors.New("Invalid transaction data length!")
+	numOfVins, size, err := readCompactSize(txBytes[index:])
+	if err != nil {
+		return nil, err
 	}
-	numOfVins := txBytes[index]
-	index++
+	index += size
 	if numOfVins == 0 {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
-	for i := byte(0); i < numOfVins; i++ {
+	for i := 0; i < numOfVins; i++ {
 		var tmpTxIn TxIn
 
 		if index+32 > limit {
@@ -249,17 +249,16 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 		rawTx.Vins = append(rawTx.Vins, tmpTxIn)
 	}
 
-	if index+1 > limit {
-		return nil, errors.New("Invalid transaction data length!")
+	numOfVouts, size, err := readCompactSize(txBytes[index:])
+	if err != nil {
+		return nil, err
 	}
-
-	numOfVouts := txBytes[index]
-	index++
+	index += size
 	if numOfVouts == 0 {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
-	for i := byte(0); i < numOfVouts; i++ {
+	for i := 0; i < numOfVouts; i++ {
 		var tmpTxOut TxOut
 
 		if index+8 > limit {
@@ -268,27 +267,27 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 		tmpTxOut.amount = txBytes[index : index+8]
 		index += 8
 
-		if index+1 > limit {
-			return nil, errors.New("Invalid transaction data length!")
+		lockScriptLen, size, err := readCompactSize(txBytes[index:])
+		if err != nil {
+			return nil, err
 		}
-		lockScriptLen := txBytes[index]
-		index++
+		index += size
 
 		if lockScriptLen == 0 {
 			return nil, errors.New("Invalid transaction data!")
 		}
 
-		if index+int(lockScriptLen) > limit {
+		if index+lockScriptLen > limit {
 			return nil, errors.New("Invalid transaction data length!")
 		}
-		tmpTxOut.lockScript = txBytes[index : index+int(lockScriptLen)]
-		index += int(lockScriptLen)
+		tmpTxOut.lockScript = txBytes[index : index+lockScriptLen]
+		index += lockScriptLen
 
 		rawTx.Vouts = append(rawTx.Vouts, tmpTxOut)
 	}
 
 	if rawTx.Witness {
-		for i := byte(0); i < numOfVins; i++ {
+		for i := 0; i < numOfVins; i++ {
 			if index+1 > limit {
 				return nil, errors.New("Invalid transaction data length!")
 			}
diff --git a/cxcTransaction/txUtils.go b/cxcTransaction/txUtils.go
index 176ba4e..24bc5b0 100644
--- a/cxcTransaction/txUtils.go
+++ b/cxcTransaction/txUtils.go
@@ -78,3 +78,30 @@ func uint64ToLittleEndianBytes(data uint64) []byte {
 func littleEndianBytesToUint64(data []byte) uint64 {
 	return binary.LittleEndian.Uint64(data)
 }
+
+//compactSize encodes a count or length the way the network serialization does
+func compactSize(n int) []byte {
+	if n < 0xFD {
+		return []byte{byte(n)}
+	}
+	if n <= 0xFFFF {
+		return append([]byte{0xFD}, uint16ToLittleEndianBytes(uint16(n))...)
+	}
+	return append([]byte{0xFE}, uint32ToLittleEndianBytes(uint32(n))...)
+}
+
+//readCompactSize decodes a count or length, it returns the value and the number of bytes read
+func readCompactSize(data []byte) (int, int, error) {
+	if len(data) < 1 {
+		return 0, 0, errors.New("Invalid transaction data length!")
+	}
+	if data[0] < 0xFD {
+		return int(data[0]), 1, nil
+	}
+	if data[0] == 0xFD && len(data) >= 3 {
+		if n := int(littleEndianBytesToUint16(data[1:3])); n >= 0xFD {
+			return n, 3, nil
+		}
+	}
+	return 0, 0, errors.New("Invalid transaction data length!")
+}
diff --git a/hcTransaction/txHash.go b/hcTransaction/txHash.go
index 2a046ee..a1ee5a3 100644
--- a/hcTransaction/txHash.go
+++ b/hcTransaction/txHash.go
@@ -122,7 +122,7 @@ func (t Transaction) calcSegwitSerializationHashes() ([]byte, []byte, []byte) {
 	}
 	for _, vout := range t.Vouts {
 		hashOutputs = append(hashOutputs, vout.amount...)
-		hashOutputs = append(hashOutputs, byte(len(vout.lockScript)))
+		hashOutputs = append(hashOutputs, compactSize(len(vout.lockScript))...)
 		hashOutputs = append(hashOutputs, vout.lockScript...)
 	}
 	return owcrypt.Hash(hashPrevouts, 0, owcrypt.HASH_ALG_DOUBLE_SHA256),
@@ -166,7 +166,7 @@ func (t Transaction) getSegwitBytesForSig(reddemBytes, txid, vout, sequence []by
 		return nil, err
 	}
 
-	sigBytes = append(sigBytes, byte(len(scriptCode)))
+	sigBytes = append(sigBytes, compactSize(len(scriptCode))...)
 	sigBytes = append(sigBytes, scriptCode...)
 
 	if amount == 0 {
diff --git a/hcTransaction/txIn.go b/hcTransaction/txIn.go
index 7dba474..c93f7ba 100644
--- a/hcTransaction/txIn.go
+++ b/hcTransaction/txIn.go
@@ -79,7 +79,7 @@ func (in TxIn) toBytes(SegwitON bool) ([]byte, error) {
 		if in.scriptPub == nil && in.scriptSig == nil {
 			ret = append(ret, byte(0x00))
 		} else {
-			ret = append(ret, byte(len(in.scriptPub)))
+			ret = append(ret, compactSize(len(in.scriptPub))...)
 			ret = append(ret, in.scriptPub...)
 		}
 	} else if in.inType == TypeP2PKH {
diff --git a/hcTransaction/txOut.go b/hcTransaction/txOut.go
index 36ac134..9b7739e 100644
--- a/hcTransaction/txOut.go
+++ b/hcTransaction/txOut.go
@@ -73,7 +73,7 @@ func (out TxOut) toBytes() ([]byte, error) {
 
 	ret := []byte{}
 	ret = append(ret, out.amount...)
-	ret = append(ret, byte(len(out.lockScript)))
+	ret = append(ret, compactSize(len(out.lockScript))...)
 	ret = append(ret, out.lockScript...)
 
 	return ret, nil
diff --git a/hcTransaction/txStruct.go b/hcTransaction/txStruct.go
index e2dc2f9..d13724c 100644
--- a/hcTransaction/txStruct.go
+++ b/hcTransaction/txStruct.go
@@ -57,7 +57,7 @@ func (t Transaction) encodeToBytes(SegwitON bool) ([]byte, error) {
 		ret = append(ret, SegWitSymbol, SegWitVersion)
 	}
 
-	ret = append(ret, byte(len(t.Vins)))
+	ret = append(ret, compactSize(len(t.Vins))...)
 	for _, in := range t.Vins {
 		inBytes, err := in.toBytes(SegwitON)
 		if err != nil {
@@ -66,7 +66,7 @@ func (t Transaction) encodeToBytes(SegwitON bool) ([]byte, error) {
 		ret = append(ret, inBytes...)
 	}
 
-	ret = append(ret, byte(len(t.Vouts)))
+	ret = append(ret, compactSize(len(t.Vouts))...)
 
 	for _, out := range t.Vouts {
 		outBytes, err := out.toBytes()
@@ -122,16 +122,16 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 		index += 2
 	}
 
-	if index+1 > limit {
-		return nil, errors.New("Invalid transaction data length!")
+	numOfVins, size, err := readCompactSize(txBytes[index:])
+	if err != nil {
+		return nil, err
 	}
-	numOfVins := txBytes[index]
-	index++
+	index += size
 	if numOfVins == 0 {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
-	for i := byte(0); i < numOfVins; i++ {
+	for i := 0; i < numOfVins; i++ {
 		var tmpTxIn TxIn
 
 		if index+32 > limit {
@@ -218,17 +218,16 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 		rawTx.Vins = append(rawTx.Vins, tmpTxIn)
 	}
 
-	if index+1 > limit {
-		return nil, errors.New("Invalid transaction data length!")
+	numOfVouts, size, err := readCompactSize(txBytes[index:])
+	if err != nil {
+		return nil, err
 	}
-
-	numOfVouts := txBytes[index]
-	index++
+	index += size
 	if numOfVouts == 0 {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
-	for i := byte(0); i < numOfVouts; i++ {
+	for i := 0; i < numOfVouts; i++ {
 		var tmpTxOut TxOut
 
 		if index+8 > limit {
@@ -237,27 +236,27 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 		tmpTxOut.amount = txBytes[index : index+8]
 		index += 8
 
-		if index+1 > limit {
-			return nil, errors.New("Invalid transaction data length!")
+		lockScriptLen, size, err := readCompactSize(txBytes[index:])
+		if err != nil {
+			return nil, err
 		}
-		lockScriptLen := txBytes[index]
-		index++
+		index += size
 
 		if lockScriptLen == 0 {
 			return nil, errors.New("Invalid transaction data!")
 		}
 
-		if index+int(lockScriptLen) > limit {
+		if index+lockScriptLen > limit {
 			return nil, errors.New("Invalid transaction data length!")
 		}
-		tmpTxOut.lockScript = txBytes[index : index+int(lockScriptLen)]
-		index += int(lockScriptLen)
+		tmpTxOut.lockScript = txBytes[index : index+lockScriptLen]
+		index += lockScriptLen
 
 		rawTx.Vouts = append(rawTx.Vouts, tmpTxOut)
 	}
 
 	if rawTx.Witness {
-		for i := byte(0); i < numOfVins; i++ {
+		for i := 0; i < numOfVins; i++ {
 			if index+1 > limit {
 				return nil, errors.New("Invalid transaction data length!")
 			}
diff --git a/hcTransaction/txUtils.go b/hcTransaction/txUtils.go
index 5c10266..442eab9 100644
--- a/hcTransaction/txUtils.go
+++ b/hcTransaction/txUtils.go
@@ -78,3 +78,30 @@ func uint64ToLittleEndianBytes(data uint64) []byte {
 func littleEndianBytesToUint64(data []byte) uint64 {
 	return binary.LittleEndian.Uint64(data)
 }
+
+//compactSize encodes a count or length the way the network serialization does
+func compactSize(n int) []byte {
+	if n < 0xFD {
+		return []byte{byte(n)}
+	}
+	if n <= 0xFFFF {
+		return append([]byte{0xFD}, uint16ToLittleEndianBytes(uint16(n))...)
+	}
+	return append([]byte{0xFE}, uint32ToLittleEndianBytes(uint32(n))...)
+}
+
+//readCompactSize decodes a count or length, it returns the value and the number of bytes read
+func readCompactSize(data []byte) (int, int, error) {
+	if len(data) < 1 {
+		return 0, 0, errors.New("Invalid transaction data length!")
+	}
+	if data[0] < 0xFD {
+		return int(data[0]), 1, nil
+	}
+	if data[0] == 0xFD && len(data) >= 3 {
+		if n := int(littleEndianBytesToUint16(data[1:3])); n >= 0xFD {
+			return n, 3, nil
+		}
+	}
+	return 0, 0, errors.New("Invalid transaction data length!")
+}
diff --git a/omniTransaction/txHash.go b/omniTransaction/txHash.go
index d482fb6..e51add7 100644
--- a/omniTransaction/txHash.go
+++ b/omniTransaction/txHash.go
@@ -121,7 +121,7 @@ func (t Transaction) calcSegwitSerializationHashes() ([]byte, []byte, []byte) {
 	}
 	for _, vout := range t.Vouts {
 		hashOutputs = append(hashOutputs, vout.amount...)
-		hashOutputs = append(hashOutputs, byte(len(vout.lockScript)))
+		hashOutputs = append(hashOutputs, compactSize(len(vout.lockScript))...)
 		hashOutputs = append(hashOutputs, vout.lockScript...)
 	}
 	return owcrypt.Hash(hashPrevouts, 0, owcrypt.HASH_ALG_DOUBLE_SHA256),
@@ -165,7 +165,7 @@ func (t Transaction) getSegwitBytesForSig(reddemBytes, txid, vout, sequence []by
 		return nil, err
 	}
 
-	sigBytes = append(sigBytes, byte(len(scriptCode)))
+	sigBytes = append(sigBytes, compactSize(len(scriptCode))...)
 	sigBytes = append(sigBytes, scriptCode...)
 
 	if amount == 0 {
diff --git a/omniTransaction/txIn.go b/omniTransaction/txIn.go
index 3354027..1211dc9 100644
--- a/omniTransaction/txIn.go
+++ b/omniTransaction/txIn.go
@@ -79,7 +79,7 @@ func (in TxIn) toBytes(SegwitON bool) ([]byte, error) {
 		if in.scriptPub == nil && in.scriptSig == nil {
 			ret = append(ret, byte(0x00))
 		} else {
-			ret = append(ret, byte(len(in.scriptPub)))
+			ret = append(ret, compactSize(len(in.scriptPub))...)
 			ret = append(ret, in.scriptPub...)
 		}
 	} else if in.inType == TypeP2PKH {
diff --git a/omniTransaction/txOut.go b/omniTransaction/txOut.go
index cd5a85c..67e2eee 100644
--- a/omniTransaction/txOut.go
+++ b/omniTransaction/txOut.go
@@ -76,7 +76,7 @@ func (out TxOut) toBytes() ([]byte, error) {
 
 	ret := []byte{}
 	ret = append(ret, out.amount...)
-	ret = append(ret, byte(len(out.lockScript)))
+	ret = append(ret, compactSize(len(out.lockScript))...)
 	ret = append(ret, out.lockScript...)
 
 	return ret, nil
diff --git a/omniTransaction/txStruct.go b/omniTransaction/txStruct.go
index 8a05cc0..2b78b78 100644
--- a/omniTransaction/txStruct.go
+++ b/omniTransaction/txStruct.go
@@ -57,7 +57,7 @@ func (t Transaction) encodeToBytes(SegwitON bool) ([]byte, error) {
 		ret = append(ret, SegWitSymbol, SegWitVersion)
 	}
 
-	ret = append(ret, byte(len(t.Vins)))
+	ret = append(ret, compactSize(len(t.Vins))...)
 	for _, in := range t.Vins {
 		inBytes, err := in.toBytes(SegwitON)
 		if err != nil {
@@ -66,7 +66,7 @@ func (t Transaction) encodeToBytes(SegwitON bool) ([]byte, error) {
 		ret = append(ret, inBytes...)
 	}
 
-	ret = append(ret, byte(len(t.Vouts)))
+	ret = append(ret, compactSize(len(t.Vouts))...)
 
 	for _, out := range t.Vouts {
 		outBytes, err := out.toBytes()
@@ -122,16 +122,16 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 		index += 2
 	}
 
-	if index+1 > limit {
-		return nil, errors.New("Invalid transaction data length!")
+	numOfVins, size, err := readCompactSize(txBytes[index:])
+	if err != nil {
+		return nil, err
 	}
-	numOfVins := txBytes[index]
-	index++
+	index += size
 	if numOfVins == 0 {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
-	for i := byte(0); i < numOfVins; i++ {
+	for i := 0; i < numOfVins; i++ {
 		var tmpTxIn TxIn
 
 		if index+32 > limit {
@@ -218,17 +218,16 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 		rawTx.Vins = append(rawTx.Vins, tmpTxIn)
 	}
 
-	if index+1 > limit {
-		return nil, errors.New("Invalid transaction data length!")
+	numOfVouts, size, err := readCompactSize(txBytes[index:])
+	if err != nil {
+		return nil, err
 	}
-
-	numOfVouts := txBytes[index]
-	index++
+	index += size
 	if numOfVouts == 0 {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
-	for i := byte(0); i < numOfVouts; i++ {
+	for i := 0; i < numOfVouts; i++ {
 		var tmpTxOut TxOut
 
 		if index+8 > limit {
@@ -237,27 +236,27 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 		tmpTxOut.amount = txBytes[index : index+8]
 		index += 8
 
-		if index+1 > limit {
-			return nil, errors.New("Invalid transaction data length!")
+		lockScriptLen, size, err := readCompactSize(txBytes[index:])
+		if err != nil {
+			return nil, err
 		}
-		lockScriptLen := txBytes[index]
-		index++
+		index += size
 
 		if lockScriptLen == 0 {
 			return nil, errors.New("Invalid transaction data!")
 		}
 
-		if index+int(lockScriptLen) > limit {
+		if index+lockScriptLen > limit {
 			return nil, errors.New("Invalid transaction data length!")
 		}
-		tmpTxOut.lockScript = txBytes[index : index+int(lockScriptLen)]
-		index += int(lockScriptLen)
+		tmpTxOut.lockScript = txBytes[index : index+lockScriptLen]
+		index += lockScriptLen
 
 		rawTx.Vouts = append(rawTx.Vouts, tmpTxOut)
 	}
 
 	if rawTx.Witness {
-		for i := byte(0); i < numOfVins; i++ {
+		for i := 0; i < numOfVins; i++ {
 			if index+1 > limit {
 				return nil, errors.New("Invalid transaction data length!")
 			}
diff --git a/omniTransaction/txUtils.go b/omniTransaction/txUtils.go
index 2cfe632..b77b2e3 100644
--- a/omniTransaction/txUtils.go
+++ b/omniTransaction/txUtils.go
@@ -108,3 +108,30 @@ func uint64ToBigEndianBytes(data uint64) []byte {
 func bigEndianBytesToUint64(data []byte) uint64 {
 	return binary.BigEndian.Uint64(data)
 }
+
+//compactSize encodes a count or length the way the network serialization does
+func compactSize(n int) []byte {
+	if n < 0xFD {
+		return []byte{byte(n)}
+	}
+	if n <= 0xFFFF {
+		return append([]byte{0xFD}, uint16ToLittleEndianBytes(uint16(n))...)
+	}
+	return append([]byte{0xFE}, uint32ToLittleEndianBytes(uint32(n))...)
+}
+
+//readCompactSize decodes a count or length, it returns the value and the number of bytes read
+func readCompactSize(data []byte) (int, int, error) {
+	if len(data) < 1 {
+		return 0, 0, errors.New("Invalid transaction data length!")
+	}
+	if data[0] < 0xFD {
+		return int(data[0]), 1, nil
+	}
+	if data[0] == 0xFD && len(data) >= 3 {
+		if n := int(littleEndianBytesToUint16(data[1:3])); n >= 0xFD {
+			return n, 3, nil
+		}
+	}
+	return 0, 0, errors.New("Invalid transaction data length!")
+}
diff --git a/zencashTransaction/txHash.go b/zencashTransaction/txHash.go
index cfa6039..d95e7a4 100644
--- a/zencashTransaction/txHash.go
+++ b/zencashTransaction/txHash.go
@@ -122,7 +122,7 @@ func (t Transaction) calcSegwitSerializationHashes() ([]byte, []byte, []byte) {
 	}
 	for _, vout := range t.Vouts {
 		hashOutputs = append(hashOutputs, vout.amount...)
-		hashOutputs = append(hashOutputs, byte(len(vout.lockScript)))
+		hashOutputs = append(hashOutputs, compactSize(len(vout.lockScript))...)
 		hashOutputs = append(hashOutputs, vout.lockScript...)
 	}
 	return owcrypt.Hash(hashPrevouts, 0, owcrypt.HASH_ALG_DOUBLE_SHA256),
@@ -166,7 +166,7 @@ func (t Transaction) getSegwitBytesForSig(reddemBytes, txid, vout, sequence []by
 		return nil, err
 	}
 
-	sigBytes = append(sigBytes, byte(len(scriptCode)))
+	sigBytes = append(sigBytes, compactSize(len(scriptCode))...)
 	sigBytes = append(sigBytes, scriptCode...)
 
 	if amount == 0 {
diff --git a/zencashTransaction/txIn.go b/zencashTransaction/txIn.go
index 6805de4..6207d9f 100644
--- a/zencashTransaction/txIn.go
+++ b/zencashTransaction/txIn.go
@@ -79,7 +79,7 @@ func (in TxIn) toBytes(SegwitON bool) ([]byte, error) {
 		if in.scriptPub == nil && in.scriptSig == nil {
 			ret = append(ret, byte(0x00))
 		} else {
-			ret = append(ret, byte(len(in.scriptPub)))
+			ret = append(ret, compactSize(len(in.scriptPub))...)
 			ret = append(ret, in.scriptPub...)
 		}
 	} else if in.inType == TypeP2PKH {
diff --git a/zencashTransaction/txOut.go b/zencashTransaction/txOut.go
index b54b3f0..46ba2c0 100644
--- a/zencashTransaction/txOut.go
+++ b/zencashTransaction/txOut.go
@@ -104,7 +104,7 @@ func (out TxOut) toBytes() ([]byte, error) {
 
 	ret := []byte{}
 	ret = append(ret, out.amount...)
-	ret = append(ret, byte(len(out.lockScript)))
+	ret = append(ret, compactSize(len(out.lockScript))...)
 	ret = append(ret, out.lockScript...)
 
 	return ret, nil
diff --git a/zencashTransaction/txStruct.go b/zencashTransaction/txStruct.go
index 2464de3..bfb77c9 100644
--- a/zencashTransaction/txStruct.go
+++ b/zencashTransaction/txStruct.go
@@ -57,7 +57,7 @@ func (t Transaction) encodeToBytes(SegwitON bool) ([]byte, error) {
 		ret = append(ret, SegWitSymbol, SegWitVersion)
 	}
 
-	ret = append(ret, byte(len(t.Vins)))
+	ret = append(ret, compactSize(len(t.Vins))...)
 	for _, in := range t.Vins {
 		inBytes, err := in.toBytes(SegwitON)
 		if err != nil {
@@ -66,7 +66,7 @@ func (t Transaction) encodeToBytes(SegwitON bool) ([]byte, error) {
 		ret = append(ret, inBytes...)
 	}
 
-	ret = append(ret, byte(len(t.Vouts)))
+	ret = append(ret, compactSize(len(t.Vouts))...)
 
 	for _, out := range t.Vouts {
 		outBytes, err := out.toBytes()
@@ -122,16 +122,16 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 		index += 2
 	}
 
-	if index+1 > limit {
-		return nil, errors.New("Invalid transaction data length!")
+	numOfVins, size, err := readCompactSize(txBytes[index:])
+	if err != nil {
+		return nil, err
 	}
-	numOfVins := txBytes[index]
-	index++
+	index += size
 	if numOfVins == 0 {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
-	for i := byte(0); i < numOfVins; i++ {
+	for i := 0; i < numOfVins; i++ {
 		var tmpTxIn TxIn
 
 		if index+32 > limit {
@@ -218,17 +218,16 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 		rawTx.Vins = append(rawTx.Vins, tmpTxIn)
 	}
 
-	if index+1 > limit {
-		return nil, errors.New("Invalid transaction data length!")
+	numOfVouts, size, err := readCompactSize(txBytes[index:])
+	if err != nil {
+		return nil, err
 	}
-
-	numOfVouts := txBytes[index]
-	index++
+	index += size
 	if numOfVouts == 0 {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
-	for i := byte(0); i < numOfVouts; i++ {
+	for i := 0; i < numOfVouts; i++ {
 		var tmpTxOut TxOut
 
 		if index+8 > limit {
@@ -237,27 +236,27 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 		tmpTxOut.amount = txBytes[index : index+8]
 		index += 8
 
-		if index+1 > limit {
-			return nil, errors.New("Invalid transaction data length!")
+		lockScriptLen, size, err := readCompactSize(txBytes[index:])
+		if err != nil {
+			return nil, err
 		}
-		lockScriptLen := txBytes[index]
-		index++
+		index += size
 
 		if lockScriptLen == 0 {
 			return nil, errors.New("Invalid transaction data!")
 		}
 
-		if index+int(lockScriptLen) > limit {
+		if index+lockScriptLen > limit {
 			return nil, errors.New("Invalid transaction data length!")
 		}
-		tmpTxOut.lockScript = txBytes[index : index+int(lockScriptLen)]
-		index += int(lockScriptLen)
+		tmpTxOut.lockScript = txBytes[index : index+lockScriptLen]
+		index += lockScriptLen
 
 		rawTx.Vouts = append(rawTx.Vouts, tmpTxOut)
 	}
 
 	if rawTx.Witness {
-		for i := byte(0); i < numOfVins; i++ {
+		for i := 0; i < numOfVins; i++ {
 			if index+1 > limit {
 				return nil, errors.New("Invalid transaction data length!")
 			}
diff --git a/zencashTransaction/txUtils.go b/zencashTransaction/txUtils.go
index 6ce82e7..8706e59 100644
--- a/zencashTransaction/txUtils.go
+++ b/zencashTransaction/txUtils.go
@@ -78,3 +78,30 @@ func uint64ToLittleEndianBytes(data uint64) []byte {
 func littleEndianBytesToUint64(data []byte) uint64 {
 	return binary.LittleEndian.Uint64(data)
 }
+
+//compactSize encodes a count or length the way the network serialization does
+func compactSize(n int) []byte {
+	if n < 0xFD {
+		return []byte{byte(n)}
+	}
+	if n <= 0xFFFF {
+		return append([]byte{0xFD}, uint16ToLittleEndianBytes(uint16(n))...)
+	}
+	return append([]byte{0xFE}, uint32ToLittleEndianBytes(uint32(n))...)
+}
+
+//readCompactSize decodes a count or length, it returns the value and the number of bytes read
+func readCompactSize(data []byte) (int, int, error) {
+	if len(data) < 1 {
+		return 0, 0, errors.New("Invalid transaction data length!")
+	}
+	if data[0] < 0xFD {
+		return int(data[0]), 1, nil
+	}
+	if data[0] == 0xFD && len(data) >= 3 {
+		if n := int(littleEndianBytesToUint16(data[1:3])); n >= 0xFD {
+			return n, 3, nil
+		}
+	}
+	return 0, 0, errors.New("Invalid transaction data length!")
+}
-- 
2.43.0


From 41202cbf768931acce313fa61a32399d156a74ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:27 +0000
Subject: [PATCH 005/106] fix: write and read the real number of witness items
 of a multisig input

---
 bitcoincashTransaction/txHash.go     |  5 ++++-
 bitcoincashTransaction/txIn.go       |  1 -
 bitcoincashTransaction/txMultiSig.go |  2 +-
 bitcoincashTransaction/txStruct.go   | 20 ++++++++++++--------
 bitcoinsvTransaction/txHash.go       |  5 ++++-
 bitcoinsvTransaction/txIn.go         |  1 -
 bitcoinsvTransaction/txMultiSig.go   |  2 +-
 bitcoinsvTransaction/txStruct.go     | 20 ++++++++++++--------
 btcTransaction/txHash.go             |  5 ++++-
 btcTransaction/txIn.go               |  1 -
 btcTransaction/txMultiSig.go         |  2 +-
 btcTransaction/txStruct.go           | 20 ++++++++++++--------
 cxcTransaction/txHash.go             |  5 ++++-
 cxcTransaction/txIn.go               |  1 -
 cxcTransaction/txMultiSig.go         |  2 +-
 cxcTransaction/txStruct.go           | 20 ++++++++++++--------
 hcTransaction/txHash.go              |  5 ++++-
 hcTransaction/txIn.go                |  1 -
 hcTransaction/txMultiSig.go          |  2 +-
 hcTransaction/txStruct.go            | 20 ++++++++++++--------
 omniTransaction/txHash.go            |  5 ++++-
 omniTransaction/txIn.go              |  1 -
 omniTransaction/txMultiSig.go        |  2 +-
 omniTransaction/txStruct.go          | 20 ++++++++++++--------
 zencashTransaction/txHash.go         |  5 ++++-
 zencashTransaction/txIn.go           |  1 -
 zencashTransaction/txMultiSig.go     |  2 +-
 zencashTransaction/txStruct.go       | 20 ++++++++++++--------
 28 files changed, 119 insertions(+), 77 deletions(-)

diff --git a/bitcoincashTransaction/txHash.go b/bitcoincashTransaction/txHash.go
index 00714cd..bc6d936 100644
--- a/bitcoincashTransaction/txHash.go
+++ b/bitcoincashTransaction/txHash.go
@@ -322,7 +322,7 @@ func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 			return nil, errors.New("MultiSig redeem data is too long!")
 		}
 	} else {
-		ret = append([]byte{byte(redeemLen)}, ret...)
+		ret = append(compactSize(redeemLen), ret...)
 	}
 
 	count = 0
@@ -348,6 +348,9 @@ func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 			ret = append(uint16ToLittleEndianBytes(uint16(length)), ret...)
 			ret = append([]byte{0xFD}, ret...)
 		}
+	} else {
+		// witness items: the empty one, the signatures and the redeem script
+		ret = append([]byte{count + 2}, ret...)
 	}
 
 	return ret, nil
diff --git a/bitcoincashTransaction/txIn.go b/bitcoincashTransaction/txIn.go
index 1ad7e20..6d2409f 100644
--- a/bitcoincashTransaction/txIn.go
+++ b/bitcoincashTransaction/txIn.go
@@ -115,7 +115,6 @@ func (in TxIn) toSegwitBytes() ([]byte, error) {
 		ret = append(ret, 0x02)
 		ret = append(ret, in.scriptSig...)
 	} else if in.inType == TypeMultiSig {
-		ret = append(ret, 0x04)
 		ret = append(ret, in.scriptMulti...)
 	} else {
 		return nil, errors.New("Unknown type of transaction!")
diff --git a/bitcoincashTransaction/txMultiSig.go b/bitcoincashTransaction/txMultiSig.go
index 799b51c..0c57989 100644
--- a/bitcoincashTransaction/txMultiSig.go
+++ b/bitcoincashTransaction/txMultiSig.go
@@ -170,7 +170,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 		}
 		redeemLen = int(script[index])
 		index++
-	} else if script[index] == OpPushData2 {
+	} else if script[index] == OpPushData2 || script[index] == 0xFD {
 		index++
 		if index+2 > limit {
 			return nil, nil, errors.New("Invalid multisig script data!")
diff --git a/bitcoincashTransaction/txStruct.go b/bitcoincashTransaction/txStruct.go
index d0d90c7..6084163 100644
--- a/bitcoincashTransaction/txStruct.go
+++ b/bitcoincashTransaction/txStruct.go
@@ -305,9 +305,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 				if !SegwitON {
 					return nil, errors.New("Invalid transaction data!")
 				}
-				if txBytes[index] != 0x04 {
-					return nil, errors.New("Invalid transaction data!")
-				}
+				numOfItems := int(txBytes[index])
 				index++
 				if !SegwitON {
 					scriptLen := int(txBytes[index])
@@ -330,6 +328,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 				rawTx.Vins[i].scriptMulti = []byte{0x00}
 				index++
 
+				numOfSigs := 0
 				for {
 					if index+2 > limit {
 						return nil, errors.New("Invalid transaction data!")
@@ -337,6 +336,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					if txBytes[index+1] != 0x30 {
 						break
 					}
+					numOfSigs++
 					sigLen := txBytes[index]
 					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, sigLen)
 					index++
@@ -346,7 +346,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+int(sigLen)]...)
 					index += int(sigLen)
 				}
-				if index+1 > limit {
+				if numOfItems != numOfSigs+2 {
 					return nil, errors.New("Invalid transaction data!")
 				}
 				redeemLen := 0
@@ -375,12 +375,16 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 						index++
 					}
 				} else {
-					redeemLen = int(txBytes[index])
-					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index])
-					index++
+					size := 0
+					redeemLen, size, err = readCompactSize(txBytes[index:])
+					if err != nil {
+						return nil, err
+					}
+					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+size]...)
+					index += size
 				}
 
-				if index+int(redeemLen) > limit {
+				if redeemLen == 0 || index+int(redeemLen) > limit {
 					return nil, errors.New("Invalid transaction data!")
 				}
 				if txBytes[index+int(redeemLen)-1] != OpCheckMultiSig {
diff --git a/bitcoinsvTransaction/txHash.go b/bitcoinsvTransaction/txHash.go
index cc000f5..52df4c1 100644
--- a/bitcoinsvTransaction/txHash.go
+++ b/bitcoinsvTransaction/txHash.go
@@ -323,7 +323,7 @@ func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 			return nil, errors.New("MultiSig redeem data is too long!")
 		}
 	} else {
-		ret = append([]byte{byte(redeemLen)}, ret...)
+		ret = append(compactSize(redeemLen), ret...)
 	}
 
 	count = 0
@@ -349,6 +349,9 @@ func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 			ret = append(uint16ToLittleEndianBytes(uint16(length)), ret...)
 			ret = append([]byte{0xFD}, ret...)
 		}
+	} else {
+		// witness items: the empty one, the signatures and the redeem script
+		ret = append([]byte{count + 2}, ret...)
 	}
 
 	return ret, nil
diff --git a/bitcoinsvTransaction/txIn.go b/bitcoinsvTransaction/txIn.go
index 1623335..0b50572 100644
--- a/bitcoinsvTransaction/txIn.go
+++ b/bitcoinsvTransaction/txIn.go
@@ -115,7 +115,6 @@ func (in TxIn) toSegwitBytes() ([]byte, error) {
 		ret = append(ret, 0x02)
 		ret = append(ret, in.scriptSig...)
 	} else if in.inType == TypeMultiSig {
-		ret = append(ret, 0x04)
 		ret = append(ret, in.scriptMulti...)
 	} else {
 		return nil, errors.New("Unknown type of transaction!")
diff --git a/bitcoinsvTransaction/txMultiSig.go b/bitcoinsvTransaction/txMultiSig.go
index da9b52d..d734fad 100644
--- a/bitcoinsvTransaction/txMultiSig.go
+++ b/bitcoinsvTransaction/txMultiSig.go
@@ -170,7 +170,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 		}
 		redeemLen = int(script[index])
 		index++
-	} else if script[index] == OpPushData2 {
+	} else if script[index] == OpPushData2 || script[index] == 0xFD {
 		index++
 		if index+2 > limit {
 			return nil, nil, errors.New("Invalid multisig script data!")
diff --git a/bitcoinsvTransaction/txStruct.go b/bitcoinsvTransaction/txStruct.go
index dcdd354..48481f1 100644
--- a/bitcoinsvTransaction/txStruct.go
+++ b/bitcoinsvTransaction/txStruct.go
@@ -305,9 +305,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 				if !SegwitON {
 					return nil, errors.New("Invalid transaction data!")
 				}
-				if txBytes[index] != 0x04 {
-					return nil, errors.New("Invalid transaction data!")
-				}
+				numOfItems := int(txBytes[index])
 				index++
 				if !SegwitON {
 					scriptLen := int(txBytes[index])
@@ -330,6 +328,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 				rawTx.Vins[i].scriptMulti = []byte{0x00}
 				index++
 
+				numOfSigs := 0
 				for {
 					if index+2 > limit {
 						return nil, errors.New("Invalid transaction data!")
@@ -337,6 +336,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					if txBytes[index+1] != 0x30 {
 						break
 					}
+					numOfSigs++
 					sigLen := txBytes[index]
 					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, sigLen)
 					index++
@@ -346,7 +346,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+int(sigLen)]...)
 					index += int(sigLen)
 				}
-				if index+1 > limit {
+				if numOfItems != numOfSigs+2 {
 					return nil, errors.New("Invalid transaction data!")
 				}
 				redeemLen := 0
@@ -375,12 +375,16 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 						index++
 					}
 				} else {
-					redeemLen = int(txBytes[index])
-					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index])
-					index++
+					size := 0
+					redeemLen, size, err = readCompactSize(txBytes[index:])
+					if err != nil {
+						return nil, err
+					}
+					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+size]...)
+					index += size
 				}
 
-				if index+int(redeemLen) > limit {
+				if redeemLen == 0 || index+int(redeemLen) > limit {
 					return nil, errors.New("Invalid transaction data!")
 				}
 				if txBytes[index+int(redeemLen)-1] != OpCheckMultiSig {
diff --git a/btcTransaction/txHash.go b/btcTransaction/txHash.go
index 0ab5dff..44e7cdc 100644
--- a/btcTransaction/txHash.go
+++ b/btcTransaction/txHash.go
@@ -326,7 +326,7 @@ func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 			return nil, errors.New("MultiSig redeem data is too long!")
 		}
 	} else {
-		ret = append([]byte{byte(redeemLen)}, ret...)
+		ret = append(compactSize(redeemLen), ret...)
 	}
 
 	count = 0
@@ -352,6 +352,9 @@ func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 			ret = append(uint16ToLittleEndianBytes(uint16(length)), ret...)
 			ret = append([]byte{0xFD}, ret...)
 		}
+	} else {
+		// witness items: the empty one, the signatures and the redeem script
+		ret = append([]byte{count + 2}, ret...)
 	}
 
 	return ret, nil
diff --git a/btcTransaction/txIn.go b/btcTransaction/txIn.go
index 348d848..a6b5330 100644
--- a/btcTransaction/txIn.go
+++ b/btcTransaction/txIn.go
@@ -115,7 +115,6 @@ func (in TxIn) toSegwitBytes() ([]byte, error) {
 		ret = append(ret, 0x02)
 		ret = append(ret, in.scriptSig...)
 	} else if in.inType == TypeMultiSig {
-		ret = append(ret, 0x04)
 		ret = append(ret, in.scriptMulti...)
 	} else {
 		return nil, errors.New("Unknown type of transaction!")
diff --git a/btcTransaction/txMultiSig.go b/btcTransaction/txMultiSig.go
index 8f4b9b9..cf97ea6 100644
--- a/btcTransaction/txMultiSig.go
+++ b/btcTransaction/txMultiSig.go
@@ -170,7 +170,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 		}
 		redeemLen = int(script[index])
 		index++
-	} else if script[index] == OpPushData2 {
+	} else if script[index] == OpPushData2 || script[index] == 0xFD {
 		index++
 		if index+2 > limit {
 			return nil, nil, errors.New("Invalid multisig script data!")
diff --git a/btcTransaction/txStruct.go b/btcTransaction/txStruct.go
index e0dd6c2..4ae87dd 100644
--- a/btcTransaction/txStruct.go
+++ b/btcTransaction/txStruct.go
@@ -284,9 +284,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 				if !SegwitON {
 					return nil, errors.New("Invalid transaction data!")
 				}
-				if txBytes[index] != 0x04 {
-					return nil, errors.New("Invalid transaction data!")
-				}
+				numOfItems := int(txBytes[index])
 				index++
 				if !SegwitON {
 					scriptLen := int(txBytes[index])
@@ -309,6 +307,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 				rawTx.Vins[i].scriptMulti = []byte{0x00}
 				index++
 
+				numOfSigs := 0
 				for {
 					if index+2 > limit {
 						return nil, errors.New("Invalid transaction data!")
@@ -316,6 +315,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					if txBytes[index+1] != 0x30 {
 						break
 					}
+					numOfSigs++
 					sigLen := txBytes[index]
 					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, sigLen)
 					index++
@@ -325,7 +325,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+int(sigLen)]...)
 					index += int(sigLen)
 				}
-				if index+1 > limit {
+				if numOfItems != numOfSigs+2 {
 					return nil, errors.New("Invalid transaction data!")
 				}
 				redeemLen := 0
@@ -354,12 +354,16 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 						index++
 					}
 				} else {
-					redeemLen = int(txBytes[index])
-					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index])
-					index++
+					size := 0
+					redeemLen, size, err = readCompactSize(txBytes[index:])
+					if err != nil {
+						return nil, err
+					}
+					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+size]...)
+					index += size
 				}
 
-				if index+int(redeemLen) > limit {
+				if redeemLen == 0 || index+int(redeemLen) > limit {
 					return nil, errors.New("Invalid transaction data!")
 				}
 				if txBytes[index+int(redeemLen)-1] != OpCheckMultiSig {
diff --git a/cxcTransaction/txHash.go b/cxcTransaction/txHash.go
index fb73a5f..1f28dce 100644
--- a/cxcTransaction/txHash.go
+++ b/cxcTransaction/txHash.go
@@ -325,7 +325,7 @@ func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 			return nil, errors.New("MultiSig redeem data is too long!")
 		}
 	} else {
-		ret = append([]byte{byte(redeemLen)}, ret...)
+		ret = append(compactSize(redeemLen), ret...)
 	}
 
 	count = 0
@@ -351,6 +351,9 @@ func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 			ret = append(uint16ToLittleEndianBytes(uint16(length)), ret...)
 			ret = append([]byte{0xFD}, ret...)
 		}
+	} else {
+		// witness items: the empty one, the signatures and the redeem script
+		ret = append([]byte{count + 2}, ret...)
 	}
 
 	return ret, nil
diff --git a/cxcTransaction/txIn.go b/cxcTransaction/txIn.go
index 8e4ce6a..81f23b6 100644
--- a/cxcTransaction/txIn.go
+++ b/cxcTransaction/txIn.go
@@ -115,7 +115,6 @@ func (in TxIn) toSegwitBytes() ([]byte, error) {
 		ret = append(ret, 0x02)
 		ret = append(ret, in.scriptSig...)
 	} else if in.inType == TypeMultiSig {
-		ret = append(ret, 0x04)
 		ret = append(ret, in.scriptMulti...)
 	} else {
 		return nil, errors.New("Unknown type of transaction!")
diff --git a/cxcTransaction/txMultiSig.go b/cxcTransaction/txMultiSig.go
index 817a3a6..ab8a4a4 100644
--- a/cxcTransaction/txMultiSig.go
+++ b/cxcTransaction/txMultiSig.go
@@ -170,7 +170,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 		}
 		redeemLen = int(script[index])
 		index++
-	} else if script[index] == OpPushData2 {
+	} else if script[index] == OpPushData2 || script[index] == 0xFD {
 		index++
 		if index+2 > limit {
 			return nil, nil, errors.New("Invalid multisig script data!")
diff --git a/cxcTransaction/txStruct.go b/cxcTransaction/txStruct.go
index 506bab9..2945e3e 100644
--- a/cxcTransaction/txStruct.go
+++ b/cxcTransaction/txStruct.go
@@ -315,9 +315,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 				if !SegwitON {
 					return nil, errors.New("Invalid transaction data!")
 				}
-				if txBytes[index] != 0x04 {
-					return nil, errors.New("Invalid transaction data!")
-				}
+				numOfItems := int(txBytes[index])
 				index++
 				if !SegwitON {
 					scriptLen := int(txBytes[index])
@@ -340,6 +338,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 				rawTx.Vins[i].scriptMulti = []byte{0x00}
 				index++
 
+				numOfSigs := 0
 				for {
 					if index+2 > limit {
 						return nil, errors.New("Invalid transaction data!")
@@ -347,6 +346,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					if txBytes[index+1] != 0x30 {
 						break
 					}
+					numOfSigs++
 					sigLen := txBytes[index]
 					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, sigLen)
 					index++
@@ -356,7 +356,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+int(sigLen)]...)
 					index += int(sigLen)
 				}
-				if index+1 > limit {
+				if numOfItems != numOfSigs+2 {
 					return nil, errors.New("Invalid transaction data!")
 				}
 				redeemLen := 0
@@ -385,12 +385,16 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 						index++
 					}
 				} else {
-					redeemLen = int(txBytes[index])
-					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index])
-					index++
+					size := 0
+					redeemLen, size, err = readCompactSize(txBytes[index:])
+					if err != nil {
+						return nil, err
+					}
+					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+size]...)
+					index += size
 				}
 
-				if index+int(redeemLen) > limit {
+				if redeemLen == 0 || index+int(redeemLen) > limit {
 					return nil, errors.New("Invalid transaction data!")
 				}
 				if txBytes[index+int(redeemLen)-1] != OpCheckMultiSig {
diff --git a/hcTransaction/txHash.go b/hcTransaction/txHash.go
index a1ee5a3..0612c16 100644
--- a/hcTransaction/txHash.go
+++ b/hcTransaction/txHash.go
@@ -326,7 +326,7 @@ func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 			return nil, errors.New("MultiSig redeem data is too long!")
 		}
 	} else {
-		ret = append([]byte{byte(redeemLen)}, ret...)
+		ret = append(compactSize(redeemLen), ret...)
 	}
 
 	count = 0
@@ -352,6 +352,9 @@ func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 			ret = append(uint16ToLittleEndianBytes(uint16(length)), ret...)
 			ret = append([]byte{0xFD}, ret...)
 		}
+	} else {
+		// witness items: the empty one, the signatures and the redeem script
+		ret = append([]byte{count + 2}, ret...)
 	}
 
 	return ret, nil
diff --git a/hcTransaction/txIn.go b/hcTransaction/txIn.go
index c93f7ba..205b1d1 100644
--- a/hcTransaction/txIn.go
+++ b/hcTransaction/txIn.go
@@ -115,7 +115,6 @@ func (in TxIn) toSegwitBytes() ([]byte, error) {
 		ret = append(ret, 0x02)
 		ret = append(ret, in.scriptSig...)
 	} else if in.inType == TypeMultiSig {
-		ret = append(ret, 0x04)
 		ret = append(ret, in.scriptMulti...)
 	} else {
 		return nil, errors.New("Unknown type of transaction!")
diff --git a/hcTransaction/txMultiSig.go b/hcTransaction/txMultiSig.go
index 54812bc..0430d41 100644
--- a/hcTransaction/txMultiSig.go
+++ b/hcTransaction/txMultiSig.go
@@ -170,7 +170,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 		}
 		redeemLen = int(script[index])
 		index++
-	} else if script[index] == OpPushData2 {
+	} else if script[index] == OpPushData2 || script[index] == 0xFD {
 		index++
 		if index+2 > limit {
 			return nil, nil, errors.New("Invalid multisig script data!")
diff --git a/hcTransaction/txStruct.go b/hcTransaction/txStruct.go
index d13724c..36c1aca 100644
--- a/hcTransaction/txStruct.go
+++ b/hcTransaction/txStruct.go
@@ -284,9 +284,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 				if !SegwitON {
 					return nil, errors.New("Invalid transaction data!")
 				}
-				if txBytes[index] != 0x04 {
-					return nil, errors.New("Invalid transaction data!")
-				}
+				numOfItems := int(txBytes[index])
 				index++
 				if !SegwitON {
 					scriptLen := int(txBytes[index])
@@ -309,6 +307,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 				rawTx.Vins[i].scriptMulti = []byte{0x00}
 				index++
 
+				numOfSigs := 0
 				for {
 					if index+2 > limit {
 						return nil, errors.New("Invalid transaction data!")
@@ -316,6 +315,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					if txBytes[index+1] != 0x30 {
 						break
 					}
+					numOfSigs++
 					sigLen := txBytes[index]
 					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, sigLen)
 					index++
@@ -325,7 +325,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+int(sigLen)]...)
 					index += int(sigLen)
 				}
-				if index+1 > limit {
+				if numOfItems != numOfSigs+2 {
 					return nil, errors.New("Invalid transaction data!")
 				}
 				redeemLen := 0
@@ -354,12 +354,16 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 						index++
 					}
 				} else {
-					redeemLen = int(txBytes[index])
-					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index])
-					index++
+					size := 0
+					redeemLen, size, err = readCompactSize(txBytes[index:])
+					if err != nil {
+						return nil, err
+					}
+					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+size]...)
+					index += size
 				}
 
-				if index+int(redeemLen) > limit {
+				if redeemLen == 0 || index+int(redeemLen) > limit {
 					return nil, errors.New("Invalid transaction data!")
 				}
 				if txBytes[index+int(redeemLen)-1] != OpCheckMultiSig {
diff --git a/omniTransaction/txHash.go b/omniTransaction/txHash.go
index e51add7..e18e4ca 100644
--- a/omniTransaction/txHash.go
+++ b/omniTransaction/txHash.go
@@ -325,7 +325,7 @@ func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 			return nil, errors.New("MultiSig redeem data is too long!")
 		}
 	} else {
-		ret = append([]byte{byte(redeemLen)}, ret...)
+		ret = append(compactSize(redeemLen), ret...)
 	}
 
 	count = 0
@@ -351,6 +351,9 @@ func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 			ret = append(uint16ToLittleEndianBytes(uint16(length)), ret...)
 			ret = append([]byte{0xFD}, ret...)
 		}
+	} else {
+		// witness items: the empty one, the signatures and the redeem script
+		ret = append([]byte{count + 2}, ret...)
 	}
 
 	return ret, nil
diff --git a/omniTransaction/txIn.go b/omniTransaction/txIn.go
index 1211dc9..c56a08b 100644
--- a/omniTransaction/txIn.go
+++ b/omniTransaction/txIn.go
@@ -115,7 +115,6 @@ func (in TxIn) toSegwitBytes() ([]byte, error) {
 		ret = append(ret, 0x02)
 		ret = append(ret, in.scriptSig...)
 	} else if in.inType == TypeMultiSig {
-		ret = append(ret, 0x04)
 		ret = append(ret, in.scriptMulti...)
 	} else {
 		return nil, errors.New("Unknown type of transaction!")
diff --git a/omniTransaction/txMultiSig.go b/omniTransaction/txMultiSig.go
index 0047f39..8d406df 100644
--- a/omniTransaction/txMultiSig.go
+++ b/omniTransaction/txMultiSig.go
@@ -169,7 +169,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 		}
 		redeemLen = int(script[index])
 		index++
-	} else if script[index] == OpPushData2 {
+	} else if script[index] == OpPushData2 || script[index] == 0xFD {
 		index++
 		if index+2 > limit {
 			return nil, nil, errors.New("Invalid multisig script data!")
diff --git a/omniTransaction/txStruct.go b/omniTransaction/txStruct.go
index 2b78b78..cb02c60 100644
--- a/omniTransaction/txStruct.go
+++ b/omniTransaction/txStruct.go
@@ -284,9 +284,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 				if !SegwitON {
 					return nil, errors.New("Invalid transaction data!")
 				}
-				if txBytes[index] != 0x04 {
-					return nil, errors.New("Invalid transaction data!")
-				}
+				numOfItems := int(txBytes[index])
 				index++
 				if !SegwitON {
 					scriptLen := int(txBytes[index])
@@ -309,6 +307,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 				rawTx.Vins[i].scriptMulti = []byte{0x00}
 				index++
 
+				numOfSigs := 0
 				for {
 					if index+2 > limit {
 						return nil, errors.New("Invalid transaction data!")
@@ -316,6 +315,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					if txBytes[index+1] != 0x30 {
 						break
 					}
+					numOfSigs++
 					sigLen := txBytes[index]
 					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, sigLen)
 					index++
@@ -325,7 +325,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+int(sigLen)]...)
 					index += int(sigLen)
 				}
-				if index+1 > limit {
+				if numOfItems != numOfSigs+2 {
 					return nil, errors.New("Invalid transaction data!")
 				}
 				redeemLen := 0
@@ -354,12 +354,16 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 						index++
 					}
 				} else {
-					redeemLen = int(txBytes[index])
-					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index])
-					index++
+					size := 0
+					redeemLen, size, err = readCompactSize(txBytes[index:])
+					if err != nil {
+						return nil, err
+					}
+					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+size]...)
+					index += size
 				}
 
-				if index+int(redeemLen) > limit {
+				if redeemLen == 0 || index+int(redeemLen) > limit {
 					return nil, errors.New("Invalid transaction data!")
 				}
 				if txBytes[index+int(redeemLen)-1] != OpCheckMultiSig {
diff --git a/zencashTransaction/txHash.go b/zencashTransaction/txHash.go
index d95e7a4..2c67820 100644
--- a/zencashTransaction/txHash.go
+++ b/zencashTransaction/txHash.go
@@ -327,7 +327,7 @@ func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 			return nil, errors.New("MultiSig redeem data is too long!")
 		}
 	} else {
-		ret = append([]byte{byte(redeemLen)}, ret...)
+		ret = append(compactSize(redeemLen), ret...)
 	}
 
 	count = 0
@@ -353,6 +353,9 @@ func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 			ret = append(uint16ToLittleEndianBytes(uint16(length)), ret...)
 			ret = append([]byte{0xFD}, ret...)
 		}
+	} else {
+		// witness items: the empty one, the signatures and the redeem script
+		ret = append([]byte{count + 2}, ret...)
 	}
 
 	return ret, nil
diff --git a/zencashTransaction/txIn.go b/zencashTransaction/txIn.go
index 6207d9f..474cc71 100644
--- a/zencashTransaction/txIn.go
+++ b/zencashTransaction/txIn.go
@@ -115,7 +115,6 @@ func (in TxIn) toSegwitBytes() ([]byte, error) {
 		ret = append(ret, 0x02)
 		ret = append(ret, in.scriptSig...)
 	} else if in.inType == TypeMultiSig {
-		ret = append(ret, 0x04)
 		ret = append(ret, in.scriptMulti...)
 	} else {
 		return nil, errors.New("Unknown type of transaction!")
diff --git a/zencashTransaction/txMultiSig.go b/zencashTransaction/txMultiSig.go
index d242f6c..540786a 100644
--- a/zencashTransaction/txMultiSig.go
+++ b/zencashTransaction/txMultiSig.go
@@ -170,7 +170,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 		}
 		redeemLen = int(script[index])
 		index++
-	} else if script[index] == OpPushData2 {
+	} else if script[index] == OpPushData2 || script[index] == 0xFD {
 		index++
 		if index+2 > limit {
 			return nil, nil, errors.New("Invalid multisig script data!")
diff --git a/zencashTransaction/txStruct.go b/zencashTransaction/txStruct.go
index bfb77c9..5dd223b 100644
--- a/zencashTransaction/txStruct.go
+++ b/zencashTransaction/txStruct.go
@@ -284,9 +284,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 				if !SegwitON {
 					return nil, errors.New("Invalid transaction data!")
 				}
-				if txBytes[index] != 0x04 {
-					return nil, errors.New("Invalid transaction data!")
-				}
+				numOfItems := int(txBytes[index])
 				index++
 				if !SegwitON {
 					scriptLen := int(txBytes[index])
@@ -309,6 +307,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 				rawTx.Vins[i].scriptMulti = []byte{0x00}
 				index++
 
+				numOfSigs := 0
 				for {
 					if index+2 > limit {
 						return nil, errors.New("Invalid transaction data!")
@@ -316,6 +315,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					if txBytes[index+1] != 0x30 {
 						break
 					}
+					numOfSigs++
 					sigLen := txBytes[index]
 					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, sigLen)
 					index++
@@ -325,7 +325,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+int(sigLen)]...)
 					index += int(sigLen)
 				}
-				if index+1 > limit {
+				if numOfItems != numOfSigs+2 {
 					return nil, errors.New("Invalid transaction data!")
 				}
 				redeemLen := 0
@@ -354,12 +354,16 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 						index++
 					}
 				} else {
-					redeemLen = int(txBytes[index])
-					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index])
-					index++
+					size := 0
+					redeemLen, size, err = readCompactSize(txBytes[index:])
+					if err != nil {
+						return nil, err
+					}
+					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+size]...)
+					index += size
 				}
 
-				if index+int(redeemLen) > limit {
+				if redeemLen == 0 || index+int(redeemLen) > limit {
 					return nil, errors.New("Invalid transaction data!")
 				}
 				if txBytes[index+int(redeemLen)-1] != OpCheckMultiSig {
-- 
2.43.0


From 0d30094ea1a64e71e11688a6d8ded8cdd55ed402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:54 +0000
Subject: [PATCH 006/106] fix: verify that the signed inputs are unlocked by
 the keys they are locked to

VerifyRawTransaction accepted any key's signature, any redeem script, one
signature counted for several keys of a multisig, and panicked on a public
key that is not on the curve.
---
 bitcoincashTransaction/transaction.go | 70 +++++++++++++++++++++++++--
 bitcoinsvTransaction/transaction.go   | 70 +++++++++++++++++++++++++--
 btcTransaction/transaction.go         | 70 +++++++++++++++++++++++++--
 cxcTransaction/transaction.go         | 70 +++++++++++++++++++++++++--
 hcTransaction/transaction.go          | 70 +++++++++++++++++++++++++--
 omniTransaction/transaction.go        | 70 +++++++++++++++++++++++++--
 zencashTransaction/transaction.go     | 28 +++++++++--
 7 files changed, 413 insertions(+), 35 deletions(-)

diff --git a/bitcoincashTransaction/transaction.go b/bitcoincashTransaction/transaction.go
index 4513070..146de8b 100644
--- a/bitcoincashTransaction/transaction.go
+++ b/bitcoincashTransaction/transaction.go
@@ -208,6 +208,10 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 				return false
 			}
 
+			if !signedTrans.Vins[i].matchUnlock(unlockData[i], []SignaturePubkey{*sigpub}, []byte{sigType}, SegwitON) {
+				return false
+			}
+
 			txHash[i].Normal.SigPub = *sigpub
 			txHash[i].Normal.SigType = sigType
 		} else if signedTrans.Vins[i].inType == TypeMultiSig {
@@ -215,27 +219,33 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 			if err != nil {
 				return false
 			}
+			if !signedTrans.Vins[i].matchUnlock(unlockData[i], sigpub, sigType, SegwitON) {
+				return false
+			}
 			for j := 0; j < len(sigpub); j++ {
 				txHash[i].Multi[j].SigPub = sigpub[j]
 				txHash[i].Multi[j].SigType = sigType[j]
 			}
+		} else {
+			return false
 		}
 	}
 
 	for _, t := range txHash {
 		th, _ := hex.DecodeString(t.Hash)
 		if t.NRequired == 0 {
-			pubkey := owcrypt.PointDecompress(t.Normal.SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-			if owcrypt.Verify(pubkey, nil, th, t.Normal.SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) != owcrypt.SUCCESS {
+			if !verifySignature(t.Normal.SigPub.Pubkey, th, t.Normal.SigPub.Signature) {
 				return false
 			}
 		} else {
+			// every signature has to be made by a further key, in the order of the redeem script
 			count := 0
+			next := 0
 			for i := 0; i < int(t.NRequired); i++ {
-				for j := count; j < len(t.Multi); j++ {
-					pubkey := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-					if owcrypt.Verify(pubkey, nil, th, t.Multi[i].SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS {
+				for ; next < len(t.Multi); next++ {
+					if verifySignature(t.Multi[next].SigPub.Pubkey, th, t.Multi[i].SigPub.Signature) {
 						count++
+						next++
 						break
 					}
 				}
@@ -247,3 +257,53 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 	}
 	return true
 }
+
+func verifySignature(pubkey, hash, signature []byte) bool {
+	point := owcrypt.PointDecompress(pubkey, owcrypt.ECC_CURVE_SECP256K1)
+	if len(point) != 65 || len(signature) != 64 {
+		return false
+	}
+	return owcrypt.Verify(point[1:], nil, hash, signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS
+}
+
+// matchUnlock checks that the signed input is unlocked the way its unlock data asks for, by the owner of the key it is locked to
+func (in TxIn) matchUnlock(unlock TxUnlock, sigPub []SignaturePubkey, sigType []byte, SegwitON bool) bool {
+	lock, redeem, inType, err := checkScriptType(unlock.LockScript, unlock.RedeemScript)
+	if err != nil || in.inType != int(inType) {
+		return false
+	}
+	if inType == TypeMultiSig {
+		nRequired, pubkeys, err := getMultiDetails(redeem)
+		if err != nil || len(pubkeys) != len(sigPub) {
+			return false
+		}
+		if SegwitON && !byteArrayCompare(in.scriptPub, append([]byte{0x23, 0x22, 0x00, 0x20}, owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_SHA256)...)) {
+			return false
+		}
+		for i := 0; i < len(sigPub); i++ {
+			if hex.EncodeToString(sigPub[i].Pubkey) != pubkeys[i] {
+				return false
+			}
+			if i < int(nRequired) {
+				if sigPub[i].Signature == nil || sigType[i] != unlock.SigType {
+					return false
+				}
+			} else if sigPub[i].Signature != nil {
+				return false
+			}
+		}
+		return true
+	}
+
+	if len(sigPub) != 1 || sigType[0] != unlock.SigType {
+		return false
+	}
+	owner := owcrypt.Hash(sigPub[0].Pubkey, 0, owcrypt.HASH_ALG_HASH160)
+	if inType == TypeP2WPKH {
+		return byteArrayCompare(in.scriptPub, append([]byte{0x16}, redeem...)) && byteArrayCompare(owner, redeem[2:22])
+	}
+	if inType == TypeBech32 {
+		return byteArrayCompare(owner, lock[2:22])
+	}
+	return byteArrayCompare(owner, lock[3:23])
+}
diff --git a/bitcoinsvTransaction/transaction.go b/bitcoinsvTransaction/transaction.go
index 1eeb0a7..192f5b6 100644
--- a/bitcoinsvTransaction/transaction.go
+++ b/bitcoinsvTransaction/transaction.go
@@ -208,6 +208,10 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 				return false
 			}
 
+			if !signedTrans.Vins[i].matchUnlock(unlockData[i], []SignaturePubkey{*sigpub}, []byte{sigType}, SegwitON) {
+				return false
+			}
+
 			txHash[i].Normal.SigPub = *sigpub
 			txHash[i].Normal.SigType = sigType
 		} else if signedTrans.Vins[i].inType == TypeMultiSig {
@@ -215,27 +219,33 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 			if err != nil {
 				return false
 			}
+			if !signedTrans.Vins[i].matchUnlock(unlockData[i], sigpub, sigType, SegwitON) {
+				return false
+			}
 			for j := 0; j < len(sigpub); j++ {
 				txHash[i].Multi[j].SigPub = sigpub[j]
 				txHash[i].Multi[j].SigType = sigType[j]
 			}
+		} else {
+			return false
 		}
 	}
 
 	for _, t := range txHash {
 		th, _ := hex.DecodeString(t.Hash)
 		if t.NRequired == 0 {
-			pubkey := owcrypt.PointDecompress(t.Normal.SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-			if owcrypt.Verify(pubkey, nil, th, t.Normal.SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) != owcrypt.SUCCESS {
+			if !verifySignature(t.Normal.SigPub.Pubkey, th, t.Normal.SigPub.Signature) {
 				return false
 			}
 		} else {
+			// every signature has to be made by a further key, in the order of the redeem script
 			count := 0
+			next := 0
 			for i := 0; i < int(t.NRequired); i++ {
-				for j := count; j < len(t.Multi); j++ {
-					pubkey := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-					if owcrypt.Verify(pubkey, nil, th, t.Multi[i].SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS {
+				for ; next < len(t.Multi); next++ {
+					if verifySignature(t.Multi[next].SigPub.Pubkey, th, t.Multi[i].SigPub.Signature) {
 						count++
+						next++
 						break
 					}
 				}
@@ -247,3 +257,53 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 	}
 	return true
 }
+
+func verifySignature(pubkey, hash, signature []byte) bool {
+	point := owcrypt.PointDecompress(pubkey, owcrypt.ECC_CURVE_SECP256K1)
+	if len(point) != 65 || len(signature) != 64 {
+		return false
+	}
+	return owcrypt.Verify(point[1:], nil, hash, signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS
+}
+
+// matchUnlock checks that the signed input is unlocked the way its unlock data asks for, by the owner of the key it is locked to
+func (in TxIn) matchUnlock(unlock TxUnlock, sigPub []SignaturePubkey, sigType []byte, SegwitON bool) bool {
+	lock, redeem, inType, err := checkScriptType(unlock.LockScript, unlock.RedeemScript)
+	if err != nil || in.inType != int(inType) {
+		return false
+	}
+	if inType == TypeMultiSig {
+		nRequired, pubkeys, err := getMultiDetails(redeem)
+		if err != nil || len(pubkeys) != len(sigPub) {
+			return false
+		}
+		if SegwitON && !byteArrayCompare(in.scriptPub, append([]byte{0x23, 0x22, 0x00, 0x20}, owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_SHA256)...)) {
+			return false
+		}
+		for i := 0; i < len(sigPub); i++ {
+			if hex.EncodeToString(sigPub[i].Pubkey) != pubkeys[i] {
+				return false
+			}
+			if i < int(nRequired) {
+				if sigPub[i].Signature == nil || sigType[i] != unlock.SigType {
+					return false
+				}
+			} else if sigPub[i].Signature != nil {
+				return false
+			}
+		}
+		return true
+	}
+
+	if len(sigPub) != 1 || sigType[0] != unlock.SigType {
+		return false
+	}
+	owner := owcrypt.Hash(sigPub[0].Pubkey, 0, owcrypt.HASH_ALG_HASH160)
+	if inType == TypeP2WPKH {
+		return byteArrayCompare(in.scriptPub, append([]byte{0x16}, redeem...)) && byteArrayCompare(owner, redeem[2:22])
+	}
+	if inType == TypeBech32 {
+		return byteArrayCompare(owner, lock[2:22])
+	}
+	return byteArrayCompare(owner, lock[3:23])
+}
diff --git a/btcTransaction/transaction.go b/btcTransaction/transaction.go
index 09586d4..dd46610 100644
--- a/btcTransaction/transaction.go
+++ b/btcTransaction/transaction.go
@@ -194,6 +194,10 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 				return false
 			}
 
+			if !signedTrans.Vins[i].matchUnlock(unlockData[i], []SignaturePubkey{*sigpub}, []byte{sigType}, SegwitON) {
+				return false
+			}
+
 			txHash[i].Normal.SigPub = *sigpub
 			txHash[i].Normal.SigType = sigType
 		} else if signedTrans.Vins[i].inType == TypeMultiSig {
@@ -201,27 +205,33 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 			if err != nil {
 				return false
 			}
+			if !signedTrans.Vins[i].matchUnlock(unlockData[i], sigpub, sigType, SegwitON) {
+				return false
+			}
 			for j := 0; j < len(sigpub); j++ {
 				txHash[i].Multi[j].SigPub = sigpub[j]
 				txHash[i].Multi[j].SigType = sigType[j]
 			}
+		} else {
+			return false
 		}
 	}
 
 	for _, t := range txHash {
 		th, _ := hex.DecodeString(t.Hash)
 		if t.NRequired == 0 {
-			pubkey := owcrypt.PointDecompress(t.Normal.SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-			if owcrypt.Verify(pubkey, nil, th, t.Normal.SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) != owcrypt.SUCCESS {
+			if !verifySignature(t.Normal.SigPub.Pubkey, th, t.Normal.SigPub.Signature) {
 				return false
 			}
 		} else {
+			// every signature has to be made by a further key, in the order of the redeem script
 			count := 0
+			next := 0
 			for i := 0; i < int(t.NRequired); i++ {
-				for j := count; j < len(t.Multi); j++ {
-					pubkey := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-					if owcrypt.Verify(pubkey, nil, th, t.Multi[i].SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS {
+				for ; next < len(t.Multi); next++ {
+					if verifySignature(t.Multi[next].SigPub.Pubkey, th, t.Multi[i].SigPub.Signature) {
 						count++
+						next++
 						break
 					}
 				}
@@ -233,3 +243,53 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 	}
 	return true
 }
+
+func verifySignature(pubkey, hash, signature []byte) bool {
+	point := owcrypt.PointDecompress(pubkey, owcrypt.ECC_CURVE_SECP256K1)
+	if len(point) != 65 || len(signature) != 64 {
+		return false
+	}
+	return owcrypt.Verify(point[1:], nil, hash, signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS
+}
+
+// matchUnlock checks that the signed input is unlocked the way its unlock data asks for, by the owner of the key it is locked to
+func (in TxIn) matchUnlock(unlock TxUnlock, sigPub []SignaturePubkey, sigType []byte, SegwitON bool) bool {
+	lock, redeem, inType, err := checkScriptType(unlock.LockScript, unlock.RedeemScript)
+	if err != nil || in.inType != int(inType) {
+		return false
+	}
+	if inType == TypeMultiSig {
+		nRequired, pubkeys, err := getMultiDetails(redeem)
+		if err != nil || len(pubkeys) != len(sigPub) {
+			return false
+		}
+		if SegwitON && !byteArrayCompare(in.scriptPub, append([]byte{0x23, 0x22, 0x00, 0x20}, owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_SHA256)...)) {
+			return false
+		}
+		for i := 0; i < len(sigPub); i++ {
+			if hex.EncodeToString(sigPub[i].Pubkey) != pubkeys[i] {
+				return false
+			}
+			if i < int(nRequired) {
+				if sigPub[i].Signature == nil || sigType[i] != unlock.SigType {
+					return false
+				}
+			} else if sigPub[i].Signature != nil {
+				return false
+			}
+		}
+		return true
+	}
+
+	if len(sigPub) != 1 || sigType[0] != unlock.SigType {
+		return false
+	}
+	owner := owcrypt.Hash(sigPub[0].Pubkey, 0, owcrypt.HASH_ALG_HASH160)
+	if inType == TypeP2WPKH {
+		return byteArrayCompare(in.scriptPub, append([]byte{0x16}, redeem...)) && byteArrayCompare(owner, redeem[2:22])
+	}
+	if inType == TypeBech32 {
+		return byteArrayCompare(owner, lock[2:22])
+	}
+	return byteArrayCompare(owner, lock[3:23])
+}
diff --git a/cxcTransaction/transaction.go b/cxcTransaction/transaction.go
index 2f2d266..6c70138 100644
--- a/cxcTransaction/transaction.go
+++ b/cxcTransaction/transaction.go
@@ -213,6 +213,10 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 				return false
 			}
 
+			if !signedTrans.Vins[i].matchUnlock(unlockData[i], []SignaturePubkey{*sigpub}, []byte{sigType}, SegwitON) {
+				return false
+			}
+
 			txHash[i].Normal.SigPub = *sigpub
 			txHash[i].Normal.SigType = sigType
 		} else if signedTrans.Vins[i].inType == TypeMultiSig {
@@ -220,27 +224,33 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 			if err != nil {
 				return false
 			}
+			if !signedTrans.Vins[i].matchUnlock(unlockData[i], sigpub, sigType, SegwitON) {
+				return false
+			}
 			for j := 0; j < len(sigpub); j++ {
 				txHash[i].Multi[j].SigPub = sigpub[j]
 				txHash[i].Multi[j].SigType = sigType[j]
 			}
+		} else {
+			return false
 		}
 	}
 
 	for _, t := range txHash {
 		th, _ := hex.DecodeString(t.Hash)
 		if t.NRequired == 0 {
-			pubkey := owcrypt.PointDecompress(t.Normal.SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-			if owcrypt.Verify(pubkey, nil, th, t.Normal.SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) != owcrypt.SUCCESS {
+			if !verifySignature(t.Normal.SigPub.Pubkey, th, t.Normal.SigPub.Signature) {
 				return false
 			}
 		} else {
+			// every signature has to be made by a further key, in the order of the redeem script
 			count := 0
+			next := 0
 			for i := 0; i < int(t.NRequired); i++ {
-				for j := count; j < len(t.Multi); j++ {
-					pubkey := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-					if owcrypt.Verify(pubkey, nil, th, t.Multi[i].SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS {
+				for ; next < len(t.Multi); next++ {
+					if verifySignature(t.Multi[next].SigPub.Pubkey, th, t.Multi[i].SigPub.Signature) {
 						count++
+						next++
 						break
 					}
 				}
@@ -252,3 +262,53 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 	}
 	return true
 }
+
+func verifySignature(pubkey, hash, signature []byte) bool {
+	point := owcrypt.PointDecompress(pubkey, owcrypt.ECC_CURVE_SECP256K1)
+	if len(point) != 65 || len(signature) != 64 {
+		return false
+	}
+	return owcrypt.Verify(point[1:], nil, hash, signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS
+}
+
+// matchUnlock checks that the signed input is unlocked the way its unlock data asks for, by the owner of the key it is locked to
+func (in TxIn) matchUnlock(unlock TxUnlock, sigPub []SignaturePubkey, sigType []byte, SegwitON bool) bool {
+	lock, redeem, inType, err := checkScriptType(unlock.LockScript, unlock.RedeemScript)
+	if err != nil || in.inType != int(inType) {
+		return false
+	}
+	if inType == TypeMultiSig {
+		nRequired, pubkeys, err := getMultiDetails(redeem)
+		if err != nil || len(pubkeys) != len(sigPub) {
+			return false
+		}
+		if SegwitON && !byteArrayCompare(in.scriptPub, append([]byte{0x23, 0x22, 0x00, 0x20}, owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_SHA256)...)) {
+			return false
+		}
+		for i := 0; i < len(sigPub); i++ {
+			if hex.EncodeToString(sigPub[i].Pubkey) != pubkeys[i] {
+				return false
+			}
+			if i < int(nRequired) {
+				if sigPub[i].Signature == nil || sigType[i] != unlock.SigType {
+					return false
+				}
+			} else if sigPub[i].Signature != nil {
+				return false
+			}
+		}
+		return true
+	}
+
+	if len(sigPub) != 1 || sigType[0] != unlock.SigType {
+		return false
+	}
+	owner := owcrypt.Hash(sigPub[0].Pubkey, 0, owcrypt.HASH_ALG_HASH160)
+	if inType == TypeP2WPKH {
+		return byteArrayCompare(in.scriptPub, append([]byte{0x16}, redeem...)) && byteArrayCompare(owner, redeem[2:22])
+	}
+	if inType == TypeBech32 {
+		return byteArrayCompare(owner, lock[2:22])
+	}
+	return byteArrayCompare(owner, lock[3:23])
+}
diff --git a/hcTransaction/transaction.go b/hcTransaction/transaction.go
index 10922cb..edd916d 100644
--- a/hcTransaction/transaction.go
+++ b/hcTransaction/transaction.go
@@ -194,6 +194,10 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 				return false
 			}
 
+			if !signedTrans.Vins[i].matchUnlock(unlockData[i], []SignaturePubkey{*sigpub}, []byte{sigType}, SegwitON) {
+				return false
+			}
+
 			txHash[i].Normal.SigPub = *sigpub
 			txHash[i].Normal.SigType = sigType
 		} else if signedTrans.Vins[i].inType == TypeMultiSig {
@@ -201,27 +205,33 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 			if err != nil {
 				return false
 			}
+			if !signedTrans.Vins[i].matchUnlock(unlockData[i], sigpub, sigType, SegwitON) {
+				return false
+			}
 			for j := 0; j < len(sigpub); j++ {
 				txHash[i].Multi[j].SigPub = sigpub[j]
 				txHash[i].Multi[j].SigType = sigType[j]
 			}
+		} else {
+			return false
 		}
 	}
 
 	for _, t := range txHash {
 		th, _ := hex.DecodeString(t.Hash)
 		if t.NRequired == 0 {
-			pubkey := owcrypt.PointDecompress(t.Normal.SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-			if owcrypt.Verify(pubkey, nil, th, t.Normal.SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) != owcrypt.SUCCESS {
+			if !verifySignature(t.Normal.SigPub.Pubkey, th, t.Normal.SigPub.Signature) {
 				return false
 			}
 		} else {
+			// every signature has to be made by a further key, in the order of the redeem script
 			count := 0
+			next := 0
 			for i := 0; i < int(t.NRequired); i++ {
-				for j := count; j < len(t.Multi); j++ {
-					pubkey := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-					if owcrypt.Verify(pubkey, nil, th, t.Multi[i].SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS {
+				for ; next < len(t.Multi); next++ {
+					if verifySignature(t.Multi[next].SigPub.Pubkey, th, t.Multi[i].SigPub.Signature) {
 						count++
+						next++
 						break
 					}
 				}
@@ -233,3 +243,53 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 	}
 	return true
 }
+
+func verifySignature(pubkey, hash, signature []byte) bool {
+	point := owcrypt.PointDecompress(pubkey, owcrypt.ECC_CURVE_SECP256K1)
+	if len(point) != 65 || len(signature) != 64 {
+		return false
+	}
+	return owcrypt.Verify(point[1:], nil, hash, signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS
+}
+
+// matchUnlock checks that the signed input is unlocked the way its unlock data asks for, by the owner of the key it is locked to
+func (in TxIn) matchUnlock(unlock TxUnlock, sigPub []SignaturePubkey, sigType []byte, SegwitON bool) bool {
+	lock, redeem, inType, err := checkScriptType(unlock.LockScript, unlock.RedeemScript)
+	if err != nil || in.inType != int(inType) {
+		return false
+	}
+	if inType == TypeMultiSig {
+		nRequired, pubkeys, err := getMultiDetails(redeem)
+		if err != nil || len(pubkeys) != len(sigPub) {
+			return false
+		}
+		if SegwitON && !byteArrayCompare(in.scriptPub, append([]byte{0x23, 0x22, 0x00, 0x20}, owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_SHA256)...)) {
+			return false
+		}
+		for i := 0; i < len(sigPub); i++ {
+			if hex.EncodeToString(sigPub[i].Pubkey) != pubkeys[i] {
+				return false
+			}
+			if i < int(nRequired) {
+				if sigPub[i].Signature == nil || sigType[i] != unlock.SigType {
+					return false
+				}
+			} else if sigPub[i].Signature != nil {
+				return false
+			}
+		}
+		return true
+	}
+
+	if len(sigPub) != 1 || sigType[0] != unlock.SigType {
+		return false
+	}
+	owner := owcrypt.Hash(sigPub[0].Pubkey, 0, owcrypt.HASH_ALG_HASH160)
+	if inType == TypeP2WPKH {
+		return byteArrayCompare(in.scriptPub, append([]byte{0x16}, redeem...)) && byteArrayCompare(owner, redeem[2:22])
+	}
+	if inType == TypeBech32 {
+		return byteArrayCompare(owner, lock[2:22])
+	}
+	return byteArrayCompare(owner, lock[3:23])
+}
diff --git a/omniTransaction/transaction.go b/omniTransaction/transaction.go
index c3f007a..a731eb0 100644
--- a/omniTransaction/transaction.go
+++ b/omniTransaction/transaction.go
@@ -191,6 +191,10 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, addressPrefix Add
 				return false
 			}
 
+			if !signedTrans.Vins[i].matchUnlock(unlockData[i], []SignaturePubkey{*sigpub}, []byte{sigType}, false) {
+				return false
+			}
+
 			txHash[i].Normal.SigPub = *sigpub
 			txHash[i].Normal.SigType = sigType
 		} else if signedTrans.Vins[i].inType == TypeMultiSig {
@@ -198,27 +202,33 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, addressPrefix Add
 			if err != nil {
 				return false
 			}
+			if !signedTrans.Vins[i].matchUnlock(unlockData[i], sigpub, sigType, false) {
+				return false
+			}
 			for j := 0; j < len(sigpub); j++ {
 				txHash[i].Multi[j].SigPub = sigpub[j]
 				txHash[i].Multi[j].SigType = sigType[j]
 			}
+		} else {
+			return false
 		}
 	}
 
 	for _, t := range txHash {
 		th, _ := hex.DecodeString(t.Hash)
 		if t.NRequired == 0 {
-			pubkey := owcrypt.PointDecompress(t.Normal.SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-			if owcrypt.Verify(pubkey, nil, th, t.Normal.SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) != owcrypt.SUCCESS {
+			if !verifySignature(t.Normal.SigPub.Pubkey, th, t.Normal.SigPub.Signature) {
 				return false
 			}
 		} else {
+			// every signature has to be made by a further key, in the order of the redeem script
 			count := 0
+			next := 0
 			for i := 0; i < int(t.NRequired); i++ {
-				for j := count; j < len(t.Multi); j++ {
-					pubkey := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-					if owcrypt.Verify(pubkey, nil, th, t.Multi[i].SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS {
+				for ; next < len(t.Multi); next++ {
+					if verifySignature(t.Multi[next].SigPub.Pubkey, th, t.Multi[i].SigPub.Signature) {
 						count++
+						next++
 						break
 					}
 				}
@@ -230,3 +240,53 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, addressPrefix Add
 	}
 	return true
 }
+
+func verifySignature(pubkey, hash, signature []byte) bool {
+	point := owcrypt.PointDecompress(pubkey, owcrypt.ECC_CURVE_SECP256K1)
+	if len(point) != 65 || len(signature) != 64 {
+		return false
+	}
+	return owcrypt.Verify(point[1:], nil, hash, signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS
+}
+
+// matchUnlock checks that the signed input is unlocked the way its unlock data asks for, by the owner of the key it is locked to
+func (in TxIn) matchUnlock(unlock TxUnlock, sigPub []SignaturePubkey, sigType []byte, SegwitON bool) bool {
+	lock, redeem, inType, err := checkScriptType(unlock.LockScript, unlock.RedeemScript)
+	if err != nil || in.inType != int(inType) {
+		return false
+	}
+	if inType == TypeMultiSig {
+		nRequired, pubkeys, err := getMultiDetails(redeem)
+		if err != nil || len(pubkeys) != len(sigPub) {
+			return false
+		}
+		if SegwitON && !byteArrayCompare(in.scriptPub, append([]byte{0x23, 0x22, 0x00, 0x20}, owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_SHA256)...)) {
+			return false
+		}
+		for i := 0; i < len(sigPub); i++ {
+			if hex.EncodeToString(sigPub[i].Pubkey) != pubkeys[i] {
+				return false
+			}
+			if i < int(nRequired) {
+				if sigPub[i].Signature == nil || sigType[i] != unlock.SigType {
+					return false
+				}
+			} else if sigPub[i].Signature != nil {
+				return false
+			}
+		}
+		return true
+	}
+
+	if len(sigPub) != 1 || sigType[0] != unlock.SigType {
+		return false
+	}
+	owner := owcrypt.Hash(sigPub[0].Pubkey, 0, owcrypt.HASH_ALG_HASH160)
+	if inType == TypeP2WPKH {
+		return byteArrayCompare(in.scriptPub, append([]byte{0x16}, redeem...)) && byteArrayCompare(owner, redeem[2:22])
+	}
+	if inType == TypeBech32 {
+		return byteArrayCompare(owner, lock[2:22])
+	}
+	return byteArrayCompare(owner, lock[3:23])
+}
diff --git a/zencashTransaction/transaction.go b/zencashTransaction/transaction.go
index 7c7f156..68839e4 100644
--- a/zencashTransaction/transaction.go
+++ b/zencashTransaction/transaction.go
@@ -149,6 +149,10 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 				return false
 			}
 
+			if signedTrans.Vins[i].inType != TypeP2PKH || txHash[i].Normal.SigType != sigType {
+				return false
+			}
+
 			txHash[i].Normal.SigPub = *sigpub
 			txHash[i].Normal.SigType = sigType
 		} else if signedTrans.Vins[i].inType == TypeMultiSig {
@@ -156,27 +160,33 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 			if err != nil {
 				return false
 			}
+			if len(sigpub) > len(txHash[i].Multi) {
+				return false
+			}
 			for j := 0; j < len(sigpub); j++ {
 				txHash[i].Multi[j].SigPub = sigpub[j]
 				txHash[i].Multi[j].SigType = sigType[j]
 			}
+		} else {
+			return false
 		}
 	}
 
 	for _, t := range txHash {
 		th, _ := hex.DecodeString(t.Hash)
 		if t.NRequired == 0 {
-			pubkey := owcrypt.PointDecompress(t.Normal.SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-			if owcrypt.Verify(pubkey, nil, th, t.Normal.SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) != owcrypt.SUCCESS {
+			if !verifySignature(t.Normal.SigPub.Pubkey, th, t.Normal.SigPub.Signature) {
 				return false
 			}
 		} else {
+			// every signature has to be made by a further key, in the order of the redeem script
 			count := 0
+			next := 0
 			for i := 0; i < int(t.NRequired); i++ {
-				for j := count; j < len(t.Multi); j++ {
-					pubkey := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-					if owcrypt.Verify(pubkey, nil, th, t.Multi[i].SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS {
+				for ; next < len(t.Multi); next++ {
+					if verifySignature(t.Multi[next].SigPub.Pubkey, th, t.Multi[i].SigPub.Signature) {
 						count++
+						next++
 						break
 					}
 				}
@@ -188,3 +198,11 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 	}
 	return true
 }
+
+func verifySignature(pubkey, hash, signature []byte) bool {
+	point := owcrypt.PointDecompress(pubkey, owcrypt.ECC_CURVE_SECP256K1)
+	if len(point) != 65 || len(signature) != 64 {
+		return false
+	}
+	return owcrypt.Verify(point[1:], nil, hash, signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS
+}
-- 
2.43.0


From f00158f54555ca694c8046c5179ce27e4f4552e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:26 +0000
Subject: [PATCH 007/106] fix: pad signatures and derived keys to 32 bytes
 however many leading zeros they have

The loop bound shrank while padding, so values with two or more leading
zero bytes stayed short.
---
 aliencoinTransaction/txSigPub.go          | 2 +-
 binancechainTransaction/utils.go          | 2 +-
 bitcoincashTransaction/SignaturePubkey.go | 2 +-
 bitcoinsvTransaction/SignaturePubkey.go   | 2 +-
 btcLikeTxDriver/signaturepubkey.go        | 2 +-
 btcTransaction/SignaturePubkey.go         | 2 +-
 cosmosTransaction/transaction.go          | 2 +-
 cxcTransaction/SignaturePubkey.go         | 2 +-
 evaioTransaction/transaction.go           | 2 +-
 hcTransaction/SignaturePubkey.go          | 2 +-
 hypercashTransaction/txSignature.go       | 2 +-
 mateverseTransaction/txUtils.go           | 2 +-
 omniTransaction/SignaturePubkey.go        | 2 +-
 ontologyTransaction/txSigPub.go           | 2 +-
 owkeychain/extendedkey.go                 | 4 ++--
 rippleTransaction/txUtils.go              | 2 +-
 vergeTransaction/txSigPub.go              | 2 +-
 vollarTransaction/txSigPub.go             | 2 +-
 zencashTransaction/SignaturePubkey.go     | 2 +-
 19 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/aliencoinTransaction/txSigPub.go b/aliencoinTransaction/txSigPub.go
index e36fdda..c1914fa 100644
--- a/aliencoinTransaction/txSigPub.go
+++ b/aliencoinTransaction/txSigPub.go
@@ -27,7 +27,7 @@ func serilizeS(sig []byte) []byte {
 
 		s = numS.Bytes()
 		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
+			for len(s) < 32 {
 				s = append([]byte{0x00}, s...)
 			}
 		}
diff --git a/binancechainTransaction/utils.go b/binancechainTransaction/utils.go
index 2bf9143..393ed62 100644
--- a/binancechainTransaction/utils.go
+++ b/binancechainTransaction/utils.go
@@ -21,7 +21,7 @@ func serilizeS(sig []byte) []byte {
 
 		s = numS.Bytes()
 		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
+			for len(s) < 32 {
 				s = append([]byte{0x00}, s...)
 			}
 		}
diff --git a/bitcoincashTransaction/SignaturePubkey.go b/bitcoincashTransaction/SignaturePubkey.go
index f1c5f6a..8be4352 100644
--- a/bitcoincashTransaction/SignaturePubkey.go
+++ b/bitcoincashTransaction/SignaturePubkey.go
@@ -22,7 +22,7 @@ func serilizeS(sig []byte) []byte {
 
 		s = numS.Bytes()
 		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
+			for len(s) < 32 {
 				s = append([]byte{0x00}, s...)
 			}
 		}
diff --git a/bitcoinsvTransaction/SignaturePubkey.go b/bitcoinsvTransaction/SignaturePubkey.go
index b377fa8..1726bf2 100644
--- a/bitcoinsvTransaction/SignaturePubkey.go
+++ b/bitcoinsvTransaction/SignaturePubkey.go
@@ -22,7 +22,7 @@ func serilizeS(sig []byte) []byte {
 
 		s = numS.Bytes()
 		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
+			for len(s) < 32 {
 				s = append([]byte{0x00}, s...)
 			}
 		}
diff --git a/btcLikeTxDriver/signaturepubkey.go b/btcLikeTxDriver/signaturepubkey.go
index 0a0d002..ce5a687 100644
--- a/btcLikeTxDriver/signaturepubkey.go
+++ b/btcLikeTxDriver/signaturepubkey.go
@@ -22,7 +22,7 @@ func serilizeS(sig []byte) []byte {
 
 		s = numS.Bytes()
 		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
+			for len(s) < 32 {
 				s = append([]byte{0x00}, s...)
 			}
 		}
diff --git a/btcTransaction/SignaturePubkey.go b/btcTransaction/SignaturePubkey.go
index 1a9d48f..3effe53 100644
--- a/btcTransaction/SignaturePubkey.go
+++ b/btcTransaction/SignaturePubkey.go
@@ -22,7 +22,7 @@ func serilizeS(sig []byte) []byte {
 
 		s = numS.Bytes()
 		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
+			for len(s) < 32 {
 				s = append([]byte{0x00}, s...)
 			}
 		}
diff --git a/cosmosTransaction/transaction.go b/cosmosTransaction/transaction.go
index 3393e7c..e320dfb 100644
--- a/cosmosTransaction/transaction.go
+++ b/cosmosTransaction/transaction.go
@@ -37,7 +37,7 @@ func serilizeS(sig []byte) []byte {
 
 		s = numS.Bytes()
 		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
+			for len(s) < 32 {
 				s = append([]byte{0x00}, s...)
 			}
 		}
diff --git a/cxcTransaction/SignaturePubkey.go b/cxcTransaction/SignaturePubkey.go
index ea881d2..db5da69 100644
--- a/cxcTransaction/SignaturePubkey.go
+++ b/cxcTransaction/SignaturePubkey.go
@@ -22,7 +22,7 @@ func serilizeS(sig []byte) []byte {
 
 		s = numS.Bytes()
 		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
+			for len(s) < 32 {
 				s = append([]byte{0x00}, s...)
 			}
 		}
diff --git a/evaioTransaction/transaction.go b/evaioTransaction/transaction.go
index 381e17d..073f867 100644
--- a/evaioTransaction/transaction.go
+++ b/evaioTransaction/transaction.go
@@ -37,7 +37,7 @@ func serilizeS(sig []byte) []byte {
 
 		s = numS.Bytes()
 		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
+			for len(s) < 32 {
 				s = append([]byte{0x00}, s...)
 			}
 		}
diff --git a/hcTransaction/SignaturePubkey.go b/hcTransaction/SignaturePubkey.go
index 97538b5..1c676a0 100644
--- a/hcTransaction/SignaturePubkey.go
+++ b/hcTransaction/SignaturePubkey.go
@@ -22,7 +22,7 @@ func serilizeS(sig []byte) []byte {
 
 		s = numS.Bytes()
 		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
+			for len(s) < 32 {
 				s = append([]byte{0x00}, s...)
 			}
 		}
diff --git a/hypercashTransaction/txSignature.go b/hypercashTransaction/txSignature.go
index 8a812a6..5f778b7 100644
--- a/hypercashTransaction/txSignature.go
+++ b/hypercashTransaction/txSignature.go
@@ -19,7 +19,7 @@ func serilizeS(sig []byte) []byte {
 
 		s = numS.Bytes()
 		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
+			for len(s) < 32 {
 				s = append([]byte{0x00}, s...)
 			}
 		}
diff --git a/mateverseTransaction/txUtils.go b/mateverseTransaction/txUtils.go
index 9d50377..f72ce09 100644
--- a/mateverseTransaction/txUtils.go
+++ b/mateverseTransaction/txUtils.go
@@ -90,7 +90,7 @@ func serilizeS(sig []byte) []byte {
 
 		s = numS.Bytes()
 		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
+			for len(s) < 32 {
 				s = append([]byte{0x00}, s...)
 			}
 		}
diff --git a/omniTransaction/SignaturePubkey.go b/omniTransaction/SignaturePubkey.go
index 4d682ae..f8f77bf 100644
--- a/omniTransaction/SignaturePubkey.go
+++ b/omniTransaction/SignaturePubkey.go
@@ -22,7 +22,7 @@ func serilizeS(sig []byte) []byte {
 
 		s = numS.Bytes()
 		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
+			for len(s) < 32 {
 				s = append([]byte{0x00}, s...)
 			}
 		}
diff --git a/ontologyTransaction/txSigPub.go b/ontologyTransaction/txSigPub.go
index 71ac866..4d9a442 100644
--- a/ontologyTransaction/txSigPub.go
+++ b/ontologyTransaction/txSigPub.go
@@ -22,7 +22,7 @@ func serilizeS(sig []byte) []byte {
 
 		s = numS.Bytes()
 		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
+			for len(s) < 32 {
 				s = append([]byte{0x00}, s...)
 			}
 		}
diff --git a/owkeychain/extendedkey.go b/owkeychain/extendedkey.go
index 97f56cd..2c9f8d7 100644
--- a/owkeychain/extendedkey.go
+++ b/owkeychain/extendedkey.go
@@ -120,7 +120,7 @@ func getPriChildViaPriParent(il, prikey []byte, typeChoose uint32) ([]byte, erro
 		}
 		priChild = ilNum.Bytes()
 		if len(priChild) < 32 {
-			for i := 0; i < 32-len(priChild); i++ {
+			for len(priChild) < 32 {
 				priChild = append([]byte{0x00}, priChild...)
 			}
 		}
@@ -139,7 +139,7 @@ func getPriChildViaPriParent(il, prikey []byte, typeChoose uint32) ([]byte, erro
 		}
 		priChild = ilNum.Bytes()
 		if len(priChild) < 32 {
-			for i := 0; i < 32-len(priChild); i++ {
+			for len(priChild) < 32 {
 				priChild = append([]byte{0x00}, priChild...)
 			}
 		}
diff --git a/rippleTransaction/txUtils.go b/rippleTransaction/txUtils.go
index 67d3f05..d82c267 100644
--- a/rippleTransaction/txUtils.go
+++ b/rippleTransaction/txUtils.go
@@ -104,7 +104,7 @@ func serilizeS(sig []byte) []byte {
 
 		s = numS.Bytes()
 		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
+			for len(s) < 32 {
 				s = append([]byte{0x00}, s...)
 			}
 		}
diff --git a/vergeTransaction/txSigPub.go b/vergeTransaction/txSigPub.go
index da17646..6d62208 100644
--- a/vergeTransaction/txSigPub.go
+++ b/vergeTransaction/txSigPub.go
@@ -27,7 +27,7 @@ func serilizeS(sig []byte) []byte {
 
 		s = numS.Bytes()
 		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
+			for len(s) < 32 {
 				s = append([]byte{0x00}, s...)
 			}
 		}
diff --git a/vollarTransaction/txSigPub.go b/vollarTransaction/txSigPub.go
index b919b89..77982bd 100644
--- a/vollarTransaction/txSigPub.go
+++ b/vollarTransaction/txSigPub.go
@@ -27,7 +27,7 @@ func serilizeS(sig []byte) []byte {
 
 		s = numS.Bytes()
 		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
+			for len(s) < 32 {
 				s = append([]byte{0x00}, s...)
 			}
 		}
diff --git a/zencashTransaction/SignaturePubkey.go b/zencashTransaction/SignaturePubkey.go
index 1115e0d..d7ae997 100644
--- a/zencashTransaction/SignaturePubkey.go
+++ b/zencashTransaction/SignaturePubkey.go
@@ -22,7 +22,7 @@ func serilizeS(sig []byte) []byte {
 
 		s = numS.Bytes()
 		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
+			for len(s) < 32 {
 				s = append([]byte{0x00}, s...)
 			}
 		}
-- 
2.43.0


From 174baba29c23b77baa69f3c4b18d69c575fbb175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:58 +0000
Subject: [PATCH 008/106] fix: report truncated transactions and missing
 signature data as errors

Combining returned an empty transaction and no error for unusable unlock
data, truncated transactions and short signature lists panicked, and
decoding a signature overwrote the transaction it was decoded from.
---
 bitcoincashTransaction/SignaturePubkey.go | 4 ++--
 bitcoincashTransaction/transaction.go     | 8 ++++++--
 bitcoincashTransaction/txHash.go          | 3 +++
 bitcoincashTransaction/txStruct.go        | 7 +++++--
 bitcoinsvTransaction/SignaturePubkey.go   | 4 ++--
 bitcoinsvTransaction/transaction.go       | 8 ++++++--
 bitcoinsvTransaction/txHash.go            | 3 +++
 bitcoinsvTransaction/txStruct.go          | 7 +++++--
 btcTransaction/SignaturePubkey.go         | 4 ++--
 btcTransaction/transaction.go             | 8 ++++++--
 btcTransaction/txHash.go                  | 3 +++
 btcTransaction/txStruct.go                | 7 +++++--
 cxcTransaction/SignaturePubkey.go         | 4 ++--
 cxcTransaction/transaction.go             | 8 ++++++--
 cxcTransaction/txHash.go                  | 3 +++
 cxcTransaction/txStruct.go                | 7 +++++--
 hcTransaction/SignaturePubkey.go          | 4 ++--
 hcTransaction/transaction.go              | 8 ++++++--
 hcTransaction/txHash.go                   | 3 +++
 hcTransaction/txStruct.go                 | 7 +++++--
 omniTransaction/SignaturePubkey.go        | 4 ++--
 omniTransaction/transaction.go            | 8 ++++++--
 omniTransaction/txHash.go                 | 3 +++
 omniTransaction/txStruct.go               | 7 +++++--
 zencashTransaction/SignaturePubkey.go     | 4 ++--
 zencashTransaction/transaction.go         | 4 ++++
 zencashTransaction/txHash.go              | 3 +++
 zencashTransaction/txStruct.go            | 7 +++++--
 28 files changed, 110 insertions(+), 40 deletions(-)

diff --git a/bitcoincashTransaction/SignaturePubkey.go b/bitcoincashTransaction/SignaturePubkey.go
index 8be4352..bfb1ec7 100644
--- a/bitcoincashTransaction/SignaturePubkey.go
+++ b/bitcoincashTransaction/SignaturePubkey.go
@@ -193,7 +193,7 @@ func decodeSignatureFromScript(script []byte) ([]byte, byte, error) {
 		return nil, 0, errors.New("Invalid script data!")
 	}
 
-	sig := script[index : index+int(rLen)]
+	sig := append([]byte{}, script[index:index+int(rLen)]...)
 	if rLen == 0x21 {
 		sig = sig[1:]
 	}
@@ -316,7 +316,7 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, byte, error) {
 	if index+int(rLen) > limit {
 		return nil, 0, errors.New("Invalid script data!")
 	}
-	ret.Signature = script[index : index+int(rLen)]
+	ret.Signature = append([]byte{}, script[index:index+int(rLen)]...)
 	if rLen == 0x21 {
 		ret.Signature = ret.Signature[1:]
 	}
diff --git a/bitcoincashTransaction/transaction.go b/bitcoincashTransaction/transaction.go
index 146de8b..d5c7e5a 100644
--- a/bitcoincashTransaction/transaction.go
+++ b/bitcoincashTransaction/transaction.go
@@ -109,9 +109,13 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 		return "", errors.New("The number of transaction inputs and the unlock data are not match!")
 	}
 
+	if len(emptyTrans.Vins) != len(txHashes) {
+		return "", errors.New("The number of transaction inputs and the signature data are not match!")
+	}
+
 	segwit, err := isSegwit(unlockData, SegwitON)
 	if err != nil {
-		return "", nil
+		return "", err
 	}
 	if segwit && !SegwitON {
 		return "", errors.New("Segwit transaction found while SegwitON is set to false!")
@@ -121,7 +125,7 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 	for i := 0; i < len(emptyTrans.Vins); i++ {
 		_, redeem, inType, err := checkScriptType(unlockData[i].LockScript, unlockData[i].RedeemScript)
 		if err != nil {
-			return "", nil
+			return "", err
 		}
 		if inType == TypeP2PKH {
 			emptyTrans.Vins[i].inType = int(inType)
diff --git a/bitcoincashTransaction/txHash.go b/bitcoincashTransaction/txHash.go
index bc6d936..c582942 100644
--- a/bitcoincashTransaction/txHash.go
+++ b/bitcoincashTransaction/txHash.go
@@ -276,6 +276,9 @@ func (t Transaction) getHashesForSig(unlockData []TxUnlock, SegwitON bool, addre
 
 func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 	if t.NRequired == 0 {
+		if t.Normal == nil {
+			return nil, errors.New("Invalid signature data!")
+		}
 		if t.Normal.SigPub.Signature == nil || len(t.Normal.SigPub.Signature) != 64 {
 			return nil, errors.New("Invalid signature data!")
 		}
diff --git a/bitcoincashTransaction/txStruct.go b/bitcoincashTransaction/txStruct.go
index 6084163..d03c96a 100644
--- a/bitcoincashTransaction/txStruct.go
+++ b/bitcoincashTransaction/txStruct.go
@@ -218,7 +218,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				scriptLen = int(littleEndianBytesToUint16(txBytes[index : index+2]))
-				if index+scriptLen > limit {
+				if index+scriptLen+2 > limit {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				tmpTxIn.scriptMulti = append([]byte{0xFD}, txBytes[index:index+scriptLen+2]...)
@@ -234,6 +234,9 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 			}
 		}
 
+		if index+4 > limit {
+			return nil, errors.New("Invalid transaction data length!")
+		}
 		tmpTxIn.sequence = txBytes[index : index+4]
 		index += 4
 		rawTx.Vins = append(rawTx.Vins, tmpTxIn)
@@ -322,7 +325,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					}
 				}
 
-				if txBytes[index] != 0x00 {
+				if index+1 > limit || txBytes[index] != 0x00 {
 					return nil, errors.New("Invalid transaction data!")
 				}
 				rawTx.Vins[i].scriptMulti = []byte{0x00}
diff --git a/bitcoinsvTransaction/SignaturePubkey.go b/bitcoinsvTransaction/SignaturePubkey.go
index 1726bf2..016252a 100644
--- a/bitcoinsvTransaction/SignaturePubkey.go
+++ b/bitcoinsvTransaction/SignaturePubkey.go
@@ -193,7 +193,7 @@ func decodeSignatureFromScript(script []byte) ([]byte, byte, error) {
 		return nil, 0, errors.New("Invalid script data!")
 	}
 
-	sig := script[index : index+int(rLen)]
+	sig := append([]byte{}, script[index:index+int(rLen)]...)
 	if rLen == 0x21 {
 		sig = sig[1:]
 	}
@@ -316,7 +316,7 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, byte, error) {
 	if index+int(rLen) > limit {
 		return nil, 0, errors.New("Invalid script data!")
 	}
-	ret.Signature = script[index : index+int(rLen)]
+	ret.Signature = append([]byte{}, script[index:index+int(rLen)]...)
 	if rLen == 0x21 {
 		ret.Signature = ret.Signature[1:]
 	}
diff --git a/bitcoinsvTransaction/transaction.go b/bitcoinsvTransaction/transaction.go
index 192f5b6..a6b5ab0 100644
--- a/bitcoinsvTransaction/transaction.go
+++ b/bitcoinsvTransaction/transaction.go
@@ -109,9 +109,13 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 		return "", errors.New("The number of transaction inputs and the unlock data are not match!")
 	}
 
+	if len(emptyTrans.Vins) != len(txHashes) {
+		return "", errors.New("The number of transaction inputs and the signature data are not match!")
+	}
+
 	segwit, err := isSegwit(unlockData, SegwitON)
 	if err != nil {
-		return "", nil
+		return "", err
 	}
 	if segwit && !SegwitON {
 		return "", errors.New("Segwit transaction found while SegwitON is set to false!")
@@ -121,7 +125,7 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 	for i := 0; i < len(emptyTrans.Vins); i++ {
 		_, redeem, inType, err := checkScriptType(unlockData[i].LockScript, unlockData[i].RedeemScript)
 		if err != nil {
-			return "", nil
+			return "", err
 		}
 		if inType == TypeP2PKH {
 			emptyTrans.Vins[i].inType = int(inType)
diff --git a/bitcoinsvTransaction/txHash.go b/bitcoinsvTransaction/txHash.go
index 52df4c1..b2f3bdd 100644
--- a/bitcoinsvTransaction/txHash.go
+++ b/bitcoinsvTransaction/txHash.go
@@ -277,6 +277,9 @@ func (t Transaction) getHashesForSig(unlockData []TxUnlock, SegwitON bool, addre
 
 func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 	if t.NRequired == 0 {
+		if t.Normal == nil {
+			return nil, errors.New("Invalid signature data!")
+		}
 		if t.Normal.SigPub.Signature == nil || len(t.Normal.SigPub.Signature) != 64 {
 			return nil, errors.New("Invalid signature data!")
 		}
diff --git a/bitcoinsvTransaction/txStruct.go b/bitcoinsvTransaction/txStruct.go
index 48481f1..c26ad17 100644
--- a/bitcoinsvTransaction/txStruct.go
+++ b/bitcoinsvTransaction/txStruct.go
@@ -218,7 +218,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				scriptLen = int(littleEndianBytesToUint16(txBytes[index : index+2]))
-				if index+scriptLen > limit {
+				if index+scriptLen+2 > limit {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				tmpTxIn.scriptMulti = append([]byte{0xFD}, txBytes[index:index+scriptLen+2]...)
@@ -234,6 +234,9 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 			}
 		}
 
+		if index+4 > limit {
+			return nil, errors.New("Invalid transaction data length!")
+		}
 		tmpTxIn.sequence = txBytes[index : index+4]
 		index += 4
 		rawTx.Vins = append(rawTx.Vins, tmpTxIn)
@@ -322,7 +325,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					}
 				}
 
-				if txBytes[index] != 0x00 {
+				if index+1 > limit || txBytes[index] != 0x00 {
 					return nil, errors.New("Invalid transaction data!")
 				}
 				rawTx.Vins[i].scriptMulti = []byte{0x00}
diff --git a/btcTransaction/SignaturePubkey.go b/btcTransaction/SignaturePubkey.go
index 3effe53..45030d9 100644
--- a/btcTransaction/SignaturePubkey.go
+++ b/btcTransaction/SignaturePubkey.go
@@ -193,7 +193,7 @@ func decodeSignatureFromScript(script []byte) ([]byte, byte, error) {
 		return nil, 0, errors.New("Invalid script data!")
 	}
 
-	sig := script[index : index+int(rLen)]
+	sig := append([]byte{}, script[index:index+int(rLen)]...)
 	if rLen == 0x21 {
 		sig = sig[1:]
 	}
@@ -316,7 +316,7 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, byte, error) {
 	if index+int(rLen) > limit {
 		return nil, 0, errors.New("Invalid script data!")
 	}
-	ret.Signature = script[index : index+int(rLen)]
+	ret.Signature = append([]byte{}, script[index:index+int(rLen)]...)
 	if rLen == 0x21 {
 		ret.Signature = ret.Signature[1:]
 	}
diff --git a/btcTransaction/transaction.go b/btcTransaction/transaction.go
index dd46610..06c5ac0 100644
--- a/btcTransaction/transaction.go
+++ b/btcTransaction/transaction.go
@@ -95,9 +95,13 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 		return "", errors.New("The number of transaction inputs and the unlock data are not match!")
 	}
 
+	if len(emptyTrans.Vins) != len(txHashes) {
+		return "", errors.New("The number of transaction inputs and the signature data are not match!")
+	}
+
 	segwit, err := isSegwit(unlockData, SegwitON)
 	if err != nil {
-		return "", nil
+		return "", err
 	}
 	if segwit && !SegwitON {
 		return "", errors.New("Segwit transaction found while SegwitON is set to false!")
@@ -107,7 +111,7 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 	for i := 0; i < len(emptyTrans.Vins); i++ {
 		_, redeem, inType, err := checkScriptType(unlockData[i].LockScript, unlockData[i].RedeemScript)
 		if err != nil {
-			return "", nil
+			return "", err
 		}
 		if inType == TypeP2PKH {
 			emptyTrans.Vins[i].inType = int(inType)
diff --git a/btcTransaction/txHash.go b/btcTransaction/txHash.go
index 44e7cdc..aa9e043 100644
--- a/btcTransaction/txHash.go
+++ b/btcTransaction/txHash.go
@@ -280,6 +280,9 @@ func (t Transaction) getHashesForSig(unlockData []TxUnlock, SegwitON bool, addre
 
 func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 	if t.NRequired == 0 {
+		if t.Normal == nil {
+			return nil, errors.New("Invalid signature data!")
+		}
 		if t.Normal.SigPub.Signature == nil || len(t.Normal.SigPub.Signature) != 64 {
 			return nil, errors.New("Invalid signature data!")
 		}
diff --git a/btcTransaction/txStruct.go b/btcTransaction/txStruct.go
index 4ae87dd..3ada492 100644
--- a/btcTransaction/txStruct.go
+++ b/btcTransaction/txStruct.go
@@ -197,7 +197,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				scriptLen = int(littleEndianBytesToUint16(txBytes[index : index+2]))
-				if index+scriptLen > limit {
+				if index+scriptLen+2 > limit {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				tmpTxIn.scriptMulti = append([]byte{0xFD}, txBytes[index:index+scriptLen+2]...)
@@ -213,6 +213,9 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 			}
 		}
 
+		if index+4 > limit {
+			return nil, errors.New("Invalid transaction data length!")
+		}
 		tmpTxIn.sequence = txBytes[index : index+4]
 		index += 4
 		rawTx.Vins = append(rawTx.Vins, tmpTxIn)
@@ -301,7 +304,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					}
 				}
 
-				if txBytes[index] != 0x00 {
+				if index+1 > limit || txBytes[index] != 0x00 {
 					return nil, errors.New("Invalid transaction data!")
 				}
 				rawTx.Vins[i].scriptMulti = []byte{0x00}
diff --git a/cxcTransaction/SignaturePubkey.go b/cxcTransaction/SignaturePubkey.go
index db5da69..cbbef07 100644
--- a/cxcTransaction/SignaturePubkey.go
+++ b/cxcTransaction/SignaturePubkey.go
@@ -193,7 +193,7 @@ func decodeSignatureFromScript(script []byte) ([]byte, byte, error) {
 		return nil, 0, errors.New("Invalid script data!")
 	}
 
-	sig := script[index : index+int(rLen)]
+	sig := append([]byte{}, script[index:index+int(rLen)]...)
 	if rLen == 0x21 {
 		sig = sig[1:]
 	}
@@ -316,7 +316,7 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, byte, error) {
 	if index+int(rLen) > limit {
 		return nil, 0, errors.New("Invalid script data!")
 	}
-	ret.Signature = script[index : index+int(rLen)]
+	ret.Signature = append([]byte{}, script[index:index+int(rLen)]...)
 	if rLen == 0x21 {
 		ret.Signature = ret.Signature[1:]
 	}
diff --git a/cxcTransaction/transaction.go b/cxcTransaction/transaction.go
index 6c70138..ef237b9 100644
--- a/cxcTransaction/transaction.go
+++ b/cxcTransaction/transaction.go
@@ -114,9 +114,13 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 		return "", errors.New("The number of transaction inputs and the unlock data are not match!")
 	}
 
+	if len(emptyTrans.Vins) != len(txHashes) {
+		return "", errors.New("The number of transaction inputs and the signature data are not match!")
+	}
+
 	segwit, err := isSegwit(unlockData, SegwitON)
 	if err != nil {
-		return "", nil
+		return "", err
 	}
 	if segwit && !SegwitON {
 		return "", errors.New("Segwit transaction found while SegwitON is set to false!")
@@ -126,7 +130,7 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 	for i := 0; i < len(emptyTrans.Vins); i++ {
 		_, redeem, inType, err := checkScriptType(unlockData[i].LockScript, unlockData[i].RedeemScript)
 		if err != nil {
-			return "", nil
+			return "", err
 		}
 		if inType == TypeP2PKH {
 			emptyTrans.Vins[i].inType = int(inType)
diff --git a/cxcTransaction/txHash.go b/cxcTransaction/txHash.go
index 1f28dce..4f56d89 100644
--- a/cxcTransaction/txHash.go
+++ b/cxcTransaction/txHash.go
@@ -279,6 +279,9 @@ func (t Transaction) getHashesForSig(unlockData []TxUnlock, SegwitON bool, addre
 
 func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 	if t.NRequired == 0 {
+		if t.Normal == nil {
+			return nil, errors.New("Invalid signature data!")
+		}
 		if t.Normal.SigPub.Signature == nil || len(t.Normal.SigPub.Signature) != 64 {
 			return nil, errors.New("Invalid signature data!")
 		}
diff --git a/cxcTransaction/txStruct.go b/cxcTransaction/txStruct.go
index 2945e3e..e601835 100644
--- a/cxcTransaction/txStruct.go
+++ b/cxcTransaction/txStruct.go
@@ -228,7 +228,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				scriptLen = int(littleEndianBytesToUint16(txBytes[index : index+2]))
-				if index+scriptLen > limit {
+				if index+scriptLen+2 > limit {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				tmpTxIn.scriptMulti = append([]byte{0xFD}, txBytes[index:index+scriptLen+2]...)
@@ -244,6 +244,9 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 			}
 		}
 
+		if index+4 > limit {
+			return nil, errors.New("Invalid transaction data length!")
+		}
 		tmpTxIn.sequence = txBytes[index : index+4]
 		index += 4
 		rawTx.Vins = append(rawTx.Vins, tmpTxIn)
@@ -332,7 +335,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					}
 				}
 
-				if txBytes[index] != 0x00 {
+				if index+1 > limit || txBytes[index] != 0x00 {
 					return nil, errors.New("Invalid transaction data!")
 				}
 				rawTx.Vins[i].scriptMulti = []byte{0x00}
diff --git a/hcTransaction/SignaturePubkey.go b/hcTransaction/SignaturePubkey.go
index 1c676a0..3566f34 100644
--- a/hcTransaction/SignaturePubkey.go
+++ b/hcTransaction/SignaturePubkey.go
@@ -194,7 +194,7 @@ func decodeSignatureFromScript(script []byte) ([]byte, byte, error) {
 		return nil, 0, errors.New("Invalid script data!")
 	}
 
-	sig := script[index : index+int(rLen)]
+	sig := append([]byte{}, script[index:index+int(rLen)]...)
 	if rLen == 0x21 {
 		sig = sig[1:]
 	}
@@ -317,7 +317,7 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, byte, error) {
 	if index+int(rLen) > limit {
 		return nil, 0, errors.New("Invalid script data!")
 	}
-	ret.Signature = script[index : index+int(rLen)]
+	ret.Signature = append([]byte{}, script[index:index+int(rLen)]...)
 	if rLen == 0x21 {
 		ret.Signature = ret.Signature[1:]
 	}
diff --git a/hcTransaction/transaction.go b/hcTransaction/transaction.go
index edd916d..f6e210c 100644
--- a/hcTransaction/transaction.go
+++ b/hcTransaction/transaction.go
@@ -95,9 +95,13 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 		return "", errors.New("The number of transaction inputs and the unlock data are not match!")
 	}
 
+	if len(emptyTrans.Vins) != len(txHashes) {
+		return "", errors.New("The number of transaction inputs and the signature data are not match!")
+	}
+
 	segwit, err := isSegwit(unlockData, SegwitON)
 	if err != nil {
-		return "", nil
+		return "", err
 	}
 	if segwit && !SegwitON {
 		return "", errors.New("Segwit transaction found while SegwitON is set to false!")
@@ -107,7 +111,7 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 	for i := 0; i < len(emptyTrans.Vins); i++ {
 		_, redeem, inType, err := checkScriptType(unlockData[i].LockScript, unlockData[i].RedeemScript)
 		if err != nil {
-			return "", nil
+			return "", err
 		}
 		if inType == TypeP2PKH {
 			emptyTrans.Vins[i].inType = int(inType)
diff --git a/hcTransaction/txHash.go b/hcTransaction/txHash.go
index 0612c16..b564d97 100644
--- a/hcTransaction/txHash.go
+++ b/hcTransaction/txHash.go
@@ -280,6 +280,9 @@ func (t Transaction) getHashesForSig(unlockData []TxUnlock, SegwitON bool, addre
 
 func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 	if t.NRequired == 0 {
+		if t.Normal == nil {
+			return nil, errors.New("Invalid signature data!")
+		}
 		if t.Normal.SigPub.Signature == nil || len(t.Normal.SigPub.Signature) != 64 {
 			return nil, errors.New("Invalid signature data!")
 		}
diff --git a/hcTransaction/txStruct.go b/hcTransaction/txStruct.go
index 36c1aca..42f8c71 100644
--- a/hcTransaction/txStruct.go
+++ b/hcTransaction/txStruct.go
@@ -197,7 +197,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				scriptLen = int(littleEndianBytesToUint16(txBytes[index : index+2]))
-				if index+scriptLen > limit {
+				if index+scriptLen+2 > limit {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				tmpTxIn.scriptMulti = append([]byte{0xFD}, txBytes[index:index+scriptLen+2]...)
@@ -213,6 +213,9 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 			}
 		}
 
+		if index+4 > limit {
+			return nil, errors.New("Invalid transaction data length!")
+		}
 		tmpTxIn.sequence = txBytes[index : index+4]
 		index += 4
 		rawTx.Vins = append(rawTx.Vins, tmpTxIn)
@@ -301,7 +304,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					}
 				}
 
-				if txBytes[index] != 0x00 {
+				if index+1 > limit || txBytes[index] != 0x00 {
 					return nil, errors.New("Invalid transaction data!")
 				}
 				rawTx.Vins[i].scriptMulti = []byte{0x00}
diff --git a/omniTransaction/SignaturePubkey.go b/omniTransaction/SignaturePubkey.go
index f8f77bf..16ad1a3 100644
--- a/omniTransaction/SignaturePubkey.go
+++ b/omniTransaction/SignaturePubkey.go
@@ -193,7 +193,7 @@ func decodeSignatureFromScript(script []byte) ([]byte, byte, error) {
 		return nil, 0, errors.New("Invalid script data!")
 	}
 
-	sig := script[index : index+int(rLen)]
+	sig := append([]byte{}, script[index:index+int(rLen)]...)
 	if rLen == 0x21 {
 		sig = sig[1:]
 	}
@@ -316,7 +316,7 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, byte, error) {
 	if index+int(rLen) > limit {
 		return nil, 0, errors.New("Invalid script data!")
 	}
-	ret.Signature = script[index : index+int(rLen)]
+	ret.Signature = append([]byte{}, script[index:index+int(rLen)]...)
 	if rLen == 0x21 {
 		ret.Signature = ret.Signature[1:]
 	}
diff --git a/omniTransaction/transaction.go b/omniTransaction/transaction.go
index a731eb0..bfec46d 100644
--- a/omniTransaction/transaction.go
+++ b/omniTransaction/transaction.go
@@ -92,9 +92,13 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 		return "", errors.New("The number of transaction inputs and the unlock data are not match!")
 	}
 
+	if len(emptyTrans.Vins) != len(txHashes) {
+		return "", errors.New("The number of transaction inputs and the signature data are not match!")
+	}
+
 	segwit, err := isSegwit(unlockData, false)
 	if err != nil {
-		return "", nil
+		return "", err
 	}
 	if segwit && !false {
 		return "", errors.New("Segwit transaction found while SegwitON is set to false!")
@@ -104,7 +108,7 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 	for i := 0; i < len(emptyTrans.Vins); i++ {
 		_, redeem, inType, err := checkScriptType(unlockData[i].LockScript, unlockData[i].RedeemScript)
 		if err != nil {
-			return "", nil
+			return "", err
 		}
 		if inType == TypeP2PKH {
 			emptyTrans.Vins[i].inType = int(inType)
diff --git a/omniTransaction/txHash.go b/omniTransaction/txHash.go
index e18e4ca..90e0f3a 100644
--- a/omniTransaction/txHash.go
+++ b/omniTransaction/txHash.go
@@ -279,6 +279,9 @@ func (t Transaction) getHashesForSig(unlockData []TxUnlock, SegwitON bool, addre
 
 func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 	if t.NRequired == 0 {
+		if t.Normal == nil {
+			return nil, errors.New("Invalid signature data!")
+		}
 		if t.Normal.SigPub.Signature == nil || len(t.Normal.SigPub.Signature) != 64 {
 			return nil, errors.New("Invalid signature data!")
 		}
diff --git a/omniTransaction/txStruct.go b/omniTransaction/txStruct.go
index cb02c60..9123008 100644
--- a/omniTransaction/txStruct.go
+++ b/omniTransaction/txStruct.go
@@ -197,7 +197,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				scriptLen = int(littleEndianBytesToUint16(txBytes[index : index+2]))
-				if index+scriptLen > limit {
+				if index+scriptLen+2 > limit {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				tmpTxIn.scriptMulti = append([]byte{0xFD}, txBytes[index:index+scriptLen+2]...)
@@ -213,6 +213,9 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 			}
 		}
 
+		if index+4 > limit {
+			return nil, errors.New("Invalid transaction data length!")
+		}
 		tmpTxIn.sequence = txBytes[index : index+4]
 		index += 4
 		rawTx.Vins = append(rawTx.Vins, tmpTxIn)
@@ -301,7 +304,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					}
 				}
 
-				if txBytes[index] != 0x00 {
+				if index+1 > limit || txBytes[index] != 0x00 {
 					return nil, errors.New("Invalid transaction data!")
 				}
 				rawTx.Vins[i].scriptMulti = []byte{0x00}
diff --git a/zencashTransaction/SignaturePubkey.go b/zencashTransaction/SignaturePubkey.go
index d7ae997..bdcadbe 100644
--- a/zencashTransaction/SignaturePubkey.go
+++ b/zencashTransaction/SignaturePubkey.go
@@ -193,7 +193,7 @@ func decodeSignatureFromScript(script []byte) ([]byte, byte, error) {
 		return nil, 0, errors.New("Invalid script data!")
 	}
 
-	sig := script[index : index+int(rLen)]
+	sig := append([]byte{}, script[index:index+int(rLen)]...)
 	if rLen == 0x21 {
 		sig = sig[1:]
 	}
@@ -316,7 +316,7 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, byte, error) {
 	if index+int(rLen) > limit {
 		return nil, 0, errors.New("Invalid script data!")
 	}
-	ret.Signature = script[index : index+int(rLen)]
+	ret.Signature = append([]byte{}, script[index:index+int(rLen)]...)
 	if rLen == 0x21 {
 		ret.Signature = ret.Signature[1:]
 	}
diff --git a/zencashTransaction/transaction.go b/zencashTransaction/transaction.go
index 68839e4..f95d213 100644
--- a/zencashTransaction/transaction.go
+++ b/zencashTransaction/transaction.go
@@ -94,6 +94,10 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 		return "", errors.New("The number of transaction inputs and the unlock data are not match!")
 	}
 
+	if len(emptyTrans.Vins) != len(txHashes) {
+		return "", errors.New("The number of transaction inputs and the signature data are not match!")
+	}
+
 	segwit := false
 
 	if segwit && !SegwitON {
diff --git a/zencashTransaction/txHash.go b/zencashTransaction/txHash.go
index 2c67820..d530c6f 100644
--- a/zencashTransaction/txHash.go
+++ b/zencashTransaction/txHash.go
@@ -281,6 +281,9 @@ func (t Transaction) getHashesForSig(unlockData []TxUnlock, SegwitON bool, addre
 
 func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 	if t.NRequired == 0 {
+		if t.Normal == nil {
+			return nil, errors.New("Invalid signature data!")
+		}
 		if t.Normal.SigPub.Signature == nil || len(t.Normal.SigPub.Signature) != 64 {
 			return nil, errors.New("Invalid signature data!")
 		}
diff --git a/zencashTransaction/txStruct.go b/zencashTransaction/txStruct.go
index 5dd223b..2579e7c 100644
--- a/zencashTransaction/txStruct.go
+++ b/zencashTransaction/txStruct.go
@@ -197,7 +197,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				scriptLen = int(littleEndianBytesToUint16(txBytes[index : index+2]))
-				if index+scriptLen > limit {
+				if index+scriptLen+2 > limit {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				tmpTxIn.scriptMulti = append([]byte{0xFD}, txBytes[index:index+scriptLen+2]...)
@@ -213,6 +213,9 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 			}
 		}
 
+		if index+4 > limit {
+			return nil, errors.New("Invalid transaction data length!")
+		}
 		tmpTxIn.sequence = txBytes[index : index+4]
 		index += 4
 		rawTx.Vins = append(rawTx.Vins, tmpTxIn)
@@ -301,7 +304,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					}
 				}
 
-				if txBytes[index] != 0x00 {
+				if index+1 > limit || txBytes[index] != 0x00 {
 					return nil, errors.New("Invalid transaction data!")
 				}
 				rawTx.Vins[i].scriptMulti = []byte{0x00}
-- 
2.43.0


From 99ffd1b3cc59f0aed980326c1fdeb5d2fbb7a4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:28 +0000
Subject: [PATCH 009/106] fix: give multisig accounts a pay-to-script-hash
 address

CreateMultiSig wrote the script hash as a pay-to-pubkey-hash address, which
nobody can spend from.
---
 bitcoincashTransaction/txMultiSig.go | 2 +-
 bitcoinsvTransaction/txMultiSig.go   | 2 +-
 btcTransaction/txMultiSig.go         | 2 +-
 cxcTransaction/txMultiSig.go         | 2 +-
 hcTransaction/txMultiSig.go          | 2 +-
 omniTransaction/txMultiSig.go        | 2 +-
 zencashTransaction/txMultiSig.go     | 2 +-
 7 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/bitcoincashTransaction/txMultiSig.go b/bitcoincashTransaction/txMultiSig.go
index 0c57989..46c573e 100644
--- a/bitcoincashTransaction/txMultiSig.go
+++ b/bitcoincashTransaction/txMultiSig.go
@@ -56,7 +56,7 @@ func CreateMultiSig(required byte, pubkeys [][]byte, SegwitON bool, addressPrefi
 		redeemHash = owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_HASH160)
 	}
 
-	return EncodeCheck(addressPrefix.P2PKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
+	return EncodeCheck(addressPrefix.P2WPKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
 }
 
 func getMultiDetails(redeem []byte) (byte, []string, error) {
diff --git a/bitcoinsvTransaction/txMultiSig.go b/bitcoinsvTransaction/txMultiSig.go
index d734fad..305cef2 100644
--- a/bitcoinsvTransaction/txMultiSig.go
+++ b/bitcoinsvTransaction/txMultiSig.go
@@ -56,7 +56,7 @@ func CreateMultiSig(required byte, pubkeys [][]byte, SegwitON bool, addressPrefi
 		redeemHash = owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_HASH160)
 	}
 
-	return EncodeCheck(addressPrefix.P2PKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
+	return EncodeCheck(addressPrefix.P2WPKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
 }
 
 func getMultiDetails(redeem []byte) (byte, []string, error) {
diff --git a/btcTransaction/txMultiSig.go b/btcTransaction/txMultiSig.go
index cf97ea6..4942254 100644
--- a/btcTransaction/txMultiSig.go
+++ b/btcTransaction/txMultiSig.go
@@ -56,7 +56,7 @@ func CreateMultiSig(required byte, pubkeys [][]byte, SegwitON bool, addressPrefi
 		redeemHash = owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_HASH160)
 	}
 
-	return EncodeCheck(addressPrefix.P2PKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
+	return EncodeCheck(addressPrefix.P2WPKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
 }
 
 func getMultiDetails(redeem []byte) (byte, []string, error) {
diff --git a/cxcTransaction/txMultiSig.go b/cxcTransaction/txMultiSig.go
index ab8a4a4..5cc613d 100644
--- a/cxcTransaction/txMultiSig.go
+++ b/cxcTransaction/txMultiSig.go
@@ -56,7 +56,7 @@ func CreateMultiSig(required byte, pubkeys [][]byte, SegwitON bool, addressPrefi
 		redeemHash = owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_HASH160)
 	}
 
-	return EncodeCheck(addressPrefix.P2PKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
+	return EncodeCheck(addressPrefix.P2WPKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
 }
 
 func getMultiDetails(redeem []byte) (byte, []string, error) {
diff --git a/hcTransaction/txMultiSig.go b/hcTransaction/txMultiSig.go
index 0430d41..4d4c2e5 100644
--- a/hcTransaction/txMultiSig.go
+++ b/hcTransaction/txMultiSig.go
@@ -56,7 +56,7 @@ func CreateMultiSig(required byte, pubkeys [][]byte, SegwitON bool, addressPrefi
 		redeemHash = owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_HASH160)
 	}
 
-	return EncodeCheck(addressPrefix.P2PKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
+	return EncodeCheck(addressPrefix.P2WPKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
 }
 
 func getMultiDetails(redeem []byte) (byte, []string, error) {
diff --git a/omniTransaction/txMultiSig.go b/omniTransaction/txMultiSig.go
index 8d406df..a1b1f08 100644
--- a/omniTransaction/txMultiSig.go
+++ b/omniTransaction/txMultiSig.go
@@ -55,7 +55,7 @@ func CreateMultiSig(required byte, pubkeys [][]byte, addressPrefix AddressPrefix
 	} else {
 		redeemHash = owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_HASH160)
 	}
-	return EncodeCheck(addressPrefix.P2PKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
+	return EncodeCheck(addressPrefix.P2WPKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
 }
 
 func getMultiDetails(redeem []byte) (byte, []string, error) {
diff --git a/zencashTransaction/txMultiSig.go b/zencashTransaction/txMultiSig.go
index 540786a..f2823e6 100644
--- a/zencashTransaction/txMultiSig.go
+++ b/zencashTransaction/txMultiSig.go
@@ -56,7 +56,7 @@ func CreateMultiSig(required byte, pubkeys [][]byte, SegwitON bool, addressPrefi
 		redeemHash = owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_HASH160)
 	}
 
-	return EncodeCheck(addressPrefix.P2PKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
+	return EncodeCheck(addressPrefix.P2WPKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
 }
 
 func getMultiDetails(redeem []byte) (byte, []string, error) {
-- 
2.43.0


From 05a34b70f1cddc12dae99b44b6aafb4e418f5804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:01 +0000
Subject: [PATCH 010/106] fix: read back multisig inputs with more unused keys
 than signatures

---
 bitcoincashTransaction/txMultiSig.go | 2 +-
 bitcoinsvTransaction/txMultiSig.go   | 2 +-
 btcTransaction/txMultiSig.go         | 2 +-
 cxcTransaction/txMultiSig.go         | 2 +-
 hcTransaction/txMultiSig.go          | 2 +-
 omniTransaction/txMultiSig.go        | 2 +-
 zencashTransaction/txMultiSig.go     | 2 +-
 7 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/bitcoincashTransaction/txMultiSig.go b/bitcoincashTransaction/txMultiSig.go
index 46c573e..d75e1bd 100644
--- a/bitcoincashTransaction/txMultiSig.go
+++ b/bitcoincashTransaction/txMultiSig.go
@@ -203,7 +203,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 	pscript := script[index : len(script)-2]
 
 	if pubkeys > len(sp) {
-		for i := 0; i < pubkeys-len(sp); i++ {
+		for len(sp) < pubkeys {
 			sp = append(sp, SignaturePubkey{nil, nil})
 			st = append(st, 0)
 		}
diff --git a/bitcoinsvTransaction/txMultiSig.go b/bitcoinsvTransaction/txMultiSig.go
index 305cef2..d632301 100644
--- a/bitcoinsvTransaction/txMultiSig.go
+++ b/bitcoinsvTransaction/txMultiSig.go
@@ -203,7 +203,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 	pscript := script[index : len(script)-2]
 
 	if pubkeys > len(sp) {
-		for i := 0; i < pubkeys-len(sp); i++ {
+		for len(sp) < pubkeys {
 			sp = append(sp, SignaturePubkey{nil, nil})
 			st = append(st, 0)
 		}
diff --git a/btcTransaction/txMultiSig.go b/btcTransaction/txMultiSig.go
index 4942254..bcbabd2 100644
--- a/btcTransaction/txMultiSig.go
+++ b/btcTransaction/txMultiSig.go
@@ -203,7 +203,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 	pscript := script[index : len(script)-2]
 
 	if pubkeys > len(sp) {
-		for i := 0; i < pubkeys-len(sp); i++ {
+		for len(sp) < pubkeys {
 			sp = append(sp, SignaturePubkey{nil, nil})
 			st = append(st, 0)
 		}
diff --git a/cxcTransaction/txMultiSig.go b/cxcTransaction/txMultiSig.go
index 5cc613d..c04390f 100644
--- a/cxcTransaction/txMultiSig.go
+++ b/cxcTransaction/txMultiSig.go
@@ -203,7 +203,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 	pscript := script[index : len(script)-2]
 
 	if pubkeys > len(sp) {
-		for i := 0; i < pubkeys-len(sp); i++ {
+		for len(sp) < pubkeys {
 			sp = append(sp, SignaturePubkey{nil, nil})
 			st = append(st, 0)
 		}
diff --git a/hcTransaction/txMultiSig.go b/hcTransaction/txMultiSig.go
index 4d4c2e5..419b490 100644
--- a/hcTransaction/txMultiSig.go
+++ b/hcTransaction/txMultiSig.go
@@ -203,7 +203,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 	pscript := script[index : len(script)-2]
 
 	if pubkeys > len(sp) {
-		for i := 0; i < pubkeys-len(sp); i++ {
+		for len(sp) < pubkeys {
 			sp = append(sp, SignaturePubkey{nil, nil})
 			st = append(st, 0)
 		}
diff --git a/omniTransaction/txMultiSig.go b/omniTransaction/txMultiSig.go
index a1b1f08..dc46465 100644
--- a/omniTransaction/txMultiSig.go
+++ b/omniTransaction/txMultiSig.go
@@ -202,7 +202,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 	pscript := script[index : len(script)-2]
 
 	if pubkeys > len(sp) {
-		for i := 0; i < pubkeys-len(sp); i++ {
+		for len(sp) < pubkeys {
 			sp = append(sp, SignaturePubkey{nil, nil})
 			st = append(st, 0)
 		}
diff --git a/zencashTransaction/txMultiSig.go b/zencashTransaction/txMultiSig.go
index f2823e6..fdba095 100644
--- a/zencashTransaction/txMultiSig.go
+++ b/zencashTransaction/txMultiSig.go
@@ -203,7 +203,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 	pscript := script[index : len(script)-2]
 
 	if pubkeys > len(sp) {
-		for i := 0; i < pubkeys-len(sp); i++ {
+		for len(sp) < pubkeys {
 			sp = append(sp, SignaturePubkey{nil, nil})
 			st = append(st, 0)
 		}
-- 
2.43.0


From cc8ad37fe7540ebe01a1c9f12c04d540cf955497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:05 +0000
Subject: [PATCH 011/106] fix: encode verge, aliencoin and vollar counts above
 252 as compact sizes, refuse other vollar versions

---
 aliencoinTransaction/txStruct.go | 28 ++++++++++++++--------------
 aliencoinTransaction/txUtil.go   | 24 ++++++++++++++++++++++++
 vergeTransaction/txStruct.go     | 28 ++++++++++++++--------------
 vergeTransaction/txUtil.go       | 24 ++++++++++++++++++++++++
 vollarTransaction/txStruct.go    | 29 +++++++++++++++++------------
 vollarTransaction/txUtil.go      | 24 ++++++++++++++++++++++++
 6 files changed, 117 insertions(+), 40 deletions(-)

diff --git a/aliencoinTransaction/txStruct.go b/aliencoinTransaction/txStruct.go
index 5847351..4156241 100644
--- a/aliencoinTransaction/txStruct.go
+++ b/aliencoinTransaction/txStruct.go
@@ -46,12 +46,12 @@ func (ts TxStruct) ToBytes() []byte {
 	ret := []byte{}
 
 	ret = append(ret, ts.Version...)
-	ret = append(ret, byte(len(ts.Vin)))
+	ret = append(ret, compactSize(len(ts.Vin))...)
 	for _, in := range ts.Vin {
 		ret = append(ret, in.ToBytes()...)
 	}
 
-	ret = append(ret, byte(len(ts.Vout)))
+	ret = append(ret, compactSize(len(ts.Vout))...)
 	for _, out := range ts.Vout {
 		ret = append(ret, out.ToBytes()...)
 	}
@@ -65,7 +65,7 @@ func (ts TxStruct) GetHash() ([]string, error) {
 	for i := 0; i < len(ts.Vin); i++ {
 		data := []byte{}
 		data = append(data, ts.Version...)
-		data = append(data, byte(len(ts.Vin)))
+		data = append(data, compactSize(len(ts.Vin))...)
 		for index, in := range ts.Vin {
 			data = append(data, in.TxID...)
 			data = append(data, in.Vout...)
@@ -77,7 +77,7 @@ func (ts TxStruct) GetHash() ([]string, error) {
 			data = append(data, in.Sequence...)
 		}
 
-		data = append(data, byte(len(ts.Vout)))
+		data = append(data, compactSize(len(ts.Vout))...)
 		for _, out := range ts.Vout {
 			data = append(data, out.ToBytes()...)
 		}
@@ -111,13 +111,13 @@ func DecodeTxStructRaw(trans string) (*TxStruct, []string, error) {
 	txStruct.Version = txBytes[index : index+4]
 	index += 4
 
-	if index+1 > limit {
-		return nil, nil, errors.New("invalid transaction data!")
+	numVins, size, err := readCompactSize(txBytes[index:])
+	if err != nil {
+		return nil, nil, err
 	}
-	numVins := txBytes[index]
-	index++
+	index += size
 
-	for i := 0; i < int(numVins); i++ {
+	for i := 0; i < numVins; i++ {
 		in := TxIn{}
 		if index+32 > limit {
 			return nil, nil, errors.New("invalid transaction data!")
@@ -145,13 +145,13 @@ func DecodeTxStructRaw(trans string) (*TxStruct, []string, error) {
 		txStruct.Vin = append(txStruct.Vin, in)
 	}
 
-	if index+1 > limit {
-		return nil, nil, errors.New("invalid transaction data!")
+	numVouts, size, err := readCompactSize(txBytes[index:])
+	if err != nil {
+		return nil, nil, err
 	}
-	numVouts := txBytes[index]
-	index++
+	index += size
 
-	for i := 0; i < int(numVouts); i++ {
+	for i := 0; i < numVouts; i++ {
 		out := TxOut{}
 		if index+8 > limit {
 			return nil, nil, errors.New("invalid transaction data!")
diff --git a/aliencoinTransaction/txUtil.go b/aliencoinTransaction/txUtil.go
index 35ea8da..552fc64 100644
--- a/aliencoinTransaction/txUtil.go
+++ b/aliencoinTransaction/txUtil.go
@@ -44,3 +44,27 @@ func uint32ToLittleEndianBytes(data uint32) []byte {
 	binary.LittleEndian.PutUint32(tmp[:], data)
 	return tmp[:]
 }
+
+//compactSize encodes a count the way the network serialization does
+func compactSize(n int) []byte {
+	if n < 0xFD {
+		return []byte{byte(n)}
+	}
+	if n <= 0xFFFF {
+		return []byte{0xFD, byte(n), byte(n >> 8)}
+	}
+	return []byte{0xFE, byte(n), byte(n >> 8), byte(n >> 16), byte(n >> 24)}
+}
+
+//readCompactSize decodes a count, it returns the value and the number of bytes read
+func readCompactSize(data []byte) (int, int, error) {
+	if len(data) >= 1 && data[0] < 0xFD {
+		return int(data[0]), 1, nil
+	}
+	if len(data) >= 3 && data[0] == 0xFD {
+		if n := int(binary.LittleEndian.Uint16(data[1:3])); n >= 0xFD {
+			return n, 3, nil
+		}
+	}
+	return 0, 0, errors.New("invalid transaction data!")
+}
diff --git a/vergeTransaction/txStruct.go b/vergeTransaction/txStruct.go
index 08f324f..7b4bd89 100644
--- a/vergeTransaction/txStruct.go
+++ b/vergeTransaction/txStruct.go
@@ -52,12 +52,12 @@ func (ts TxStruct) ToBytes() []byte {
 
 	ret = append(ret, ts.Version...)
 	ret = append(ret, ts.TimeInterval...)
-	ret = append(ret, byte(len(ts.Vin)))
+	ret = append(ret, compactSize(len(ts.Vin))...)
 	for _, in := range ts.Vin {
 		ret = append(ret, in.ToBytes()...)
 	}
 
-	ret = append(ret, byte(len(ts.Vout)))
+	ret = append(ret, compactSize(len(ts.Vout))...)
 	for _, out := range ts.Vout {
 		ret = append(ret, out.ToBytes()...)
 	}
@@ -72,7 +72,7 @@ func (ts TxStruct) GetHash() ([]string, error) {
 		data := []byte{}
 		data = append(data, ts.Version...)
 		data = append(data, ts.TimeInterval...)
-		data = append(data, byte(len(ts.Vin)))
+		data = append(data, compactSize(len(ts.Vin))...)
 		for index, in := range ts.Vin {
 			data = append(data, in.TxID...)
 			data = append(data, in.Vout...)
@@ -84,7 +84,7 @@ func (ts TxStruct) GetHash() ([]string, error) {
 			data = append(data, in.Sequence...)
 		}
 
-		data = append(data, byte(len(ts.Vout)))
+		data = append(data, compactSize(len(ts.Vout))...)
 		for _, out := range ts.Vout {
 			data = append(data, out.ToBytes()...)
 		}
@@ -124,13 +124,13 @@ func DecodeTxStructRaw(trans string) (*TxStruct, []string, error) {
 	txStruct.TimeInterval = txBytes[index : index+4]
 	index += 4
 
-	if index+1 > limit {
-		return nil, nil, errors.New("invalid transaction data!")
+	numVins, size, err := readCompactSize(txBytes[index:])
+	if err != nil {
+		return nil, nil, err
 	}
-	numVins := txBytes[index]
-	index++
+	index += size
 
-	for i := 0; i < int(numVins); i++ {
+	for i := 0; i < numVins; i++ {
 		in := TxIn{}
 		if index+32 > limit {
 			return nil, nil, errors.New("invalid transaction data!")
@@ -158,13 +158,13 @@ func DecodeTxStructRaw(trans string) (*TxStruct, []string, error) {
 		txStruct.Vin = append(txStruct.Vin, in)
 	}
 
-	if index+1 > limit {
-		return nil, nil, errors.New("invalid transaction data!")
+	numVouts, size, err := readCompactSize(txBytes[index:])
+	if err != nil {
+		return nil, nil, err
 	}
-	numVouts := txBytes[index]
-	index++
+	index += size
 
-	for i := 0; i < int(numVouts); i++ {
+	for i := 0; i < numVouts; i++ {
 		out := TxOut{}
 		if index+8 > limit {
 			return nil, nil, errors.New("invalid transaction data!")
diff --git a/vergeTransaction/txUtil.go b/vergeTransaction/txUtil.go
index 89a35a0..502281f 100644
--- a/vergeTransaction/txUtil.go
+++ b/vergeTransaction/txUtil.go
@@ -44,3 +44,27 @@ func uint32ToLittleEndianBytes(data uint32) []byte {
 	binary.LittleEndian.PutUint32(tmp[:], data)
 	return tmp[:]
 }
+
+//compactSize encodes a count the way the network serialization does
+func compactSize(n int) []byte {
+	if n < 0xFD {
+		return []byte{byte(n)}
+	}
+	if n <= 0xFFFF {
+		return []byte{0xFD, byte(n), byte(n >> 8)}
+	}
+	return []byte{0xFE, byte(n), byte(n >> 8), byte(n >> 16), byte(n >> 24)}
+}
+
+//readCompactSize decodes a count, it returns the value and the number of bytes read
+func readCompactSize(data []byte) (int, int, error) {
+	if len(data) >= 1 && data[0] < 0xFD {
+		return int(data[0]), 1, nil
+	}
+	if len(data) >= 3 && data[0] == 0xFD {
+		if n := int(binary.LittleEndian.Uint16(data[1:3])); n >= 0xFD {
+			return n, 3, nil
+		}
+	}
+	return 0, 0, errors.New("invalid transaction data!")
+}
diff --git a/vollarTransaction/txStruct.go b/vollarTransaction/txStruct.go
index a173894..6da13cb 100644
--- a/vollarTransaction/txStruct.go
+++ b/vollarTransaction/txStruct.go
@@ -1,6 +1,7 @@
 package vollarTransaction
 
 import (
+	"bytes"
 	"encoding/hex"
 	"errors"
 	"strings"
@@ -46,12 +47,12 @@ func (ts TxStruct) ToBytes() []byte {
 	ret = append(ret, ts.Version...)
 	ret = append(ret, ts.Flag)
 
-	ret = append(ret, byte(len(ts.Vin)))
+	ret = append(ret, compactSize(len(ts.Vin))...)
 	for _, in := range ts.Vin {
 		ret = append(ret, in.ToBytes()...)
 	}
 
-	ret = append(ret, byte(len(ts.Vout)))
+	ret = append(ret, compactSize(len(ts.Vout))...)
 	for _, out := range ts.Vout {
 		ret = append(ret, out.ToBytes()...)
 	}
@@ -151,14 +152,18 @@ func DecodeTxStructRaw(trans string) (*TxStruct, []string, error) {
 	}
 	txStruct.Flag = txBytes[index]
 	index++
+	// the version and the flag are not covered by the signatures
+	if !bytes.Equal(txStruct.Version, DefaultTxVersion) || txStruct.Flag != DefaultTxFlag {
+		return nil, nil, errors.New("unsupported transaction version!")
+	}
 
-	if index+1 > limit {
-		return nil, nil, errors.New("invalid transaction data!")
+	numVins, size, err := readCompactSize(txBytes[index:])
+	if err != nil {
+		return nil, nil, err
 	}
-	numVins := txBytes[index]
-	index++
+	index += size
 
-	for i := 0; i < int(numVins); i++ {
+	for i := 0; i < numVins; i++ {
 		in := TxIn{}
 		if index+32 > limit {
 			return nil, nil, errors.New("invalid transaction data!")
@@ -186,13 +191,13 @@ func DecodeTxStructRaw(trans string) (*TxStruct, []string, error) {
 		txStruct.Vin = append(txStruct.Vin, in)
 	}
 
-	if index+1 > limit {
-		return nil, nil, errors.New("invalid transaction data!")
+	numVouts, size, err := readCompactSize(txBytes[index:])
+	if err != nil {
+		return nil, nil, err
 	}
-	numVouts := txBytes[index]
-	index++
+	index += size
 
-	for i := 0; i < int(numVouts); i++ {
+	for i := 0; i < numVouts; i++ {
 		out := TxOut{}
 		if index+8 > limit {
 			return nil, nil, errors.New("invalid transaction data!")
diff --git a/vollarTransaction/txUtil.go b/vollarTransaction/txUtil.go
index 9cf5791..88a343a 100644
--- a/vollarTransaction/txUtil.go
+++ b/vollarTransaction/txUtil.go
@@ -37,3 +37,27 @@ func uint64ToLittleEndianBytes(data uint64) []byte {
 func littleEndianBytesToUint64(data []byte) uint64 {
 	return binary.LittleEndian.Uint64(data)
 }
+
+//compactSize encodes a count the way the network serialization does
+func compactSize(n int) []byte {
+	if n < 0xFD {
+		return []byte{byte(n)}
+	}
+	if n <= 0xFFFF {
+		return []byte{0xFD, byte(n), byte(n >> 8)}
+	}
+	return []byte{0xFE, byte(n), byte(n >> 8), byte(n >> 16), byte(n >> 24)}
+}
+
+//readCompactSize decodes a count, it returns the value and the number of bytes read
+func readCompactSize(data []byte) (int, int, error) {
+	if len(data) >= 1 && data[0] < 0xFD {
+		return int(data[0]), 1, nil
+	}
+	if len(data) >= 3 && data[0] == 0xFD {
+		if n := int(binary.LittleEndian.Uint16(data[1:3])); n >= 0xFD {
+			return n, 3, nil
+		}
+	}
+	return 0, 0, errors.New("invalid transaction data!")
+}
-- 
2.43.0


From 974f4c49c5a092f3d08df1b83a16c97f3c0e753b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:05 +0000
Subject: [PATCH 012/106] fix: verge, aliencoin and vollar verify the owner of
 each input and write aliencoin signatures as valid DER

---
 aliencoinTransaction/transaction.go |  3 +--
 aliencoinTransaction/txSigPub.go    | 21 +++++++++++++++++++--
 vergeTransaction/transaction.go     |  3 +--
 vergeTransaction/txSigPub.go        | 17 +++++++++++++++++
 vollarTransaction/transaction.go    |  6 ++++--
 vollarTransaction/txSigPub.go       | 17 +++++++++++++++++
 6 files changed, 59 insertions(+), 8 deletions(-)

diff --git a/aliencoinTransaction/transaction.go b/aliencoinTransaction/transaction.go
index 659d15b..3063d15 100644
--- a/aliencoinTransaction/transaction.go
+++ b/aliencoinTransaction/transaction.go
@@ -64,8 +64,7 @@ func VerifyAndCombineTransaction(emptyTrans string, sigPubs []SigPub) (bool, str
 	}
 	for index := 0; index < len(sigPubs); index++ {
 		hashBytes, _ := hex.DecodeString(hashes[index])
-		pubkey := owcrypt.PointDecompress(sigPubs[index].Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-		if owcrypt.SUCCESS != owcrypt.Verify(pubkey, nil, hashBytes, sigPubs[index].Signature, owcrypt.ECC_CURVE_SECP256K1) {
+		if !sigPubs[index].verify(hashBytes, txStruct.Vin[index].LockScript) {
 			return false, "", errors.New("verify transaction failed!")
 		}
 		txStruct.Vin[index].SigPub = &sigPubs[index]
diff --git a/aliencoinTransaction/txSigPub.go b/aliencoinTransaction/txSigPub.go
index c1914fa..a844607 100644
--- a/aliencoinTransaction/txSigPub.go
+++ b/aliencoinTransaction/txSigPub.go
@@ -1,8 +1,11 @@
 package aliencoinTransaction
 
 import (
+	"bytes"
 	"errors"
 	"math/big"
+
+	owcrypt "github.com/blocktree/go-owcrypt"
 )
 
 const DefaultSigType = byte(1) //all
@@ -36,6 +39,20 @@ func serilizeS(sig []byte) []byte {
 	return sig
 }
 
+//verify checks the signature of the hash and, for a pay to pubkey hash input, that the public key owns the input
+func (sp SigPub) verify(hash, lockScript []byte) bool {
+	pubkey := owcrypt.PointDecompress(sp.Pubkey, owcrypt.ECC_CURVE_SECP256K1)
+	if len(pubkey) != 65 || len(sp.Signature) != 64 {
+		return false
+	}
+	if len(lockScript) == 26 && lockScript[1] == 0x76 && lockScript[2] == 0xa9 && lockScript[3] == 0x14 {
+		if !bytes.Equal(lockScript[4:24], owcrypt.Hash(sp.Pubkey, 0, owcrypt.HASH_ALG_HASH160)) {
+			return false
+		}
+	}
+	return owcrypt.Verify(pubkey[1:], nil, hash, sp.Signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS
+}
+
 func (sp SigPub) ToBytes() []byte {
 	r := sp.Signature[:32]
 	s := sp.Signature[32:]
@@ -43,7 +60,7 @@ func (sp SigPub) ToBytes() []byte {
 		r = append([]byte{0x00}, r...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if r[i] == 0 {
+			if r[0] == 0 && r[1]&0x80 != 0x80 {
 				r = r[1:]
 			} else {
 				break
@@ -54,7 +71,7 @@ func (sp SigPub) ToBytes() []byte {
 		s = append([]byte{0}, s...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if s[i] == 0 {
+			if s[0] == 0 && s[1]&0x80 != 0x80 {
 				s = s[1:]
 			} else {
 				break
diff --git a/vergeTransaction/transaction.go b/vergeTransaction/transaction.go
index 3663478..8821a9d 100644
--- a/vergeTransaction/transaction.go
+++ b/vergeTransaction/transaction.go
@@ -64,8 +64,7 @@ func VerifyAndCombineTransaction(emptyTrans string, sigPubs []SigPub) (bool, str
 	}
 	for index := 0; index < len(sigPubs); index++ {
 		hashBytes, _ := hex.DecodeString(hashes[index])
-		pubkey := owcrypt.PointDecompress(sigPubs[index].Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-		if owcrypt.SUCCESS != owcrypt.Verify(pubkey, nil, hashBytes, sigPubs[index].Signature, owcrypt.ECC_CURVE_SECP256K1) {
+		if !sigPubs[index].verify(hashBytes, txStruct.Vin[index].LockScript) {
 			return false, "", errors.New("verify transaction failed!")
 		}
 		txStruct.Vin[index].SigPub = &sigPubs[index]
diff --git a/vergeTransaction/txSigPub.go b/vergeTransaction/txSigPub.go
index 6d62208..81c75aa 100644
--- a/vergeTransaction/txSigPub.go
+++ b/vergeTransaction/txSigPub.go
@@ -1,8 +1,11 @@
 package vergeTransaction
 
 import (
+	"bytes"
 	"errors"
 	"math/big"
+
+	owcrypt "github.com/blocktree/go-owcrypt"
 )
 
 const DefaultSigType = byte(1) //all
@@ -36,6 +39,20 @@ func serilizeS(sig []byte) []byte {
 	return sig
 }
 
+//verify checks the signature of the hash and, for a pay to pubkey hash input, that the public key owns the input
+func (sp SigPub) verify(hash, lockScript []byte) bool {
+	pubkey := owcrypt.PointDecompress(sp.Pubkey, owcrypt.ECC_CURVE_SECP256K1)
+	if len(pubkey) != 65 || len(sp.Signature) != 64 {
+		return false
+	}
+	if len(lockScript) == 26 && lockScript[1] == 0x76 && lockScript[2] == 0xa9 && lockScript[3] == 0x14 {
+		if !bytes.Equal(lockScript[4:24], owcrypt.Hash(sp.Pubkey, 0, owcrypt.HASH_ALG_HASH160)) {
+			return false
+		}
+	}
+	return owcrypt.Verify(pubkey[1:], nil, hash, sp.Signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS
+}
+
 func (sp SigPub) ToBytes() []byte {
 	r := sp.Signature[:32]
 	s := sp.Signature[32:]
diff --git a/vollarTransaction/transaction.go b/vollarTransaction/transaction.go
index 6a52069..c042b93 100644
--- a/vollarTransaction/transaction.go
+++ b/vollarTransaction/transaction.go
@@ -76,8 +76,10 @@ func VerifyAndCombineRawTransaction(emptyTrans string, sigPub []SigPub) (bool, s
 
 	for i := 0; i < len(sigPub); i++ {
 		hash, _ := hex.DecodeString(hashes[i])
-		pubkey := owcrypt.PointDecompress(sigPub[i].Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-		if owcrypt.SUCCESS != owcrypt.Verify(pubkey, nil, hash, sigPub[i].Signature, owcrypt.ECC_CURVE_SECP256K1) {
+		if len(sigPub[i].Signature) != 64 || len(sigPub[i].Pubkey) != 33 {
+			return false, "", errors.New("invalid signature or public key!")
+		}
+		if !sigPub[i].verify(hash, trans.Vin[i].LockScript) {
 			pass = false
 		}
 		trans.Vin[i].SigPub = &sigPub[i]
diff --git a/vollarTransaction/txSigPub.go b/vollarTransaction/txSigPub.go
index 77982bd..1440be1 100644
--- a/vollarTransaction/txSigPub.go
+++ b/vollarTransaction/txSigPub.go
@@ -1,8 +1,11 @@
 package vollarTransaction
 
 import (
+	"bytes"
 	"errors"
 	"math/big"
+
+	owcrypt "github.com/blocktree/go-owcrypt"
 )
 
 const DefaultSigType = byte(1) //all
@@ -36,6 +39,20 @@ func serilizeS(sig []byte) []byte {
 	return sig
 }
 
+//verify checks the signature of the hash and, for a pay to pubkey hash input, that the public key owns the input
+func (sp SigPub) verify(hash, lockScript []byte) bool {
+	pubkey := owcrypt.PointDecompress(sp.Pubkey, owcrypt.ECC_CURVE_SECP256K1)
+	if len(pubkey) != 65 || len(sp.Signature) != 64 {
+		return false
+	}
+	if len(lockScript) == 26 && lockScript[1] == 0x76 && lockScript[2] == 0xa9 && lockScript[3] == 0x14 {
+		if !bytes.Equal(lockScript[4:24], owcrypt.Hash(sp.Pubkey, 0, owcrypt.HASH_ALG_HASH160)) {
+			return false
+		}
+	}
+	return owcrypt.Verify(pubkey[1:], nil, hash, sp.Signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS
+}
+
 func (sp SigPub) ToBytes() []byte {
 	r := sp.Signature[:32]
 	s := sp.Signature[32:]
-- 
2.43.0


From 43db4b88b8dcfad25b3a10c3943c1c4aed435acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:34 +0000
Subject: [PATCH 013/106] fix: hypercash verifies the owner of each input and
 refuses malformed shares

---
 hypercashTransaction/transaction.go |  6 ++----
 hypercashTransaction/txSignature.go | 29 ++++++++++++++++++++++++++++-
 2 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/hypercashTransaction/transaction.go b/hypercashTransaction/transaction.go
index 0af3a30..227bd88 100644
--- a/hypercashTransaction/transaction.go
+++ b/hypercashTransaction/transaction.go
@@ -137,7 +137,7 @@ func VerifyAndCombineTransaction(emptyTrans string, sigPub []*SigPub) (bool, str
 	}
 
 	txBytes, err := hex.DecodeString(transData[0])
-	if err != nil {
+	if err != nil || len(txBytes) < 4 {
 		return false, ""
 	}
 
@@ -184,9 +184,7 @@ func VerifyAndCombineTransaction(emptyTrans string, sigPub []*SigPub) (bool, str
 
 		hash := owcrypt.Hash(hashData, 0, owcrypt.HASH_ALG_BLAKE256)
 
-		pubkey := owcrypt.PointDecompress(sigPub[i].PublicKey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-
-		if owcrypt.SUCCESS != owcrypt.Verify(pubkey, nil, hash, sigPub[i].Signature, owcrypt.ECC_CURVE_SECP256K1) {
+		if !sigPub[i].verify(hash, sepStr[0]) {
 			return false, ""
 		}
 
diff --git a/hypercashTransaction/txSignature.go b/hypercashTransaction/txSignature.go
index 5f778b7..d95fa71 100644
--- a/hypercashTransaction/txSignature.go
+++ b/hypercashTransaction/txSignature.go
@@ -1,6 +1,11 @@
 package hypercashTransaction
 
-import "math/big"
+import (
+	"encoding/hex"
+	"math/big"
+
+	"github.com/blocktree/go-owcrypt"
+)
 
 
 type SigPub struct {
@@ -29,6 +34,28 @@ func serilizeS(sig []byte) []byte {
 }
 
 
+//verify checks the signature of the hash and, for a pay to pubkey hash input, that the public key owns the input
+func (sp *SigPub) verify(hash []byte, lockScript string) bool {
+	if sp == nil || len(sp.Signature) != 64 {
+		return false
+	}
+	pubkey := owcrypt.PointDecompress(sp.PublicKey, owcrypt.ECC_CURVE_SECP256K1)
+	if len(pubkey) != 65 {
+		return false
+	}
+	script, err := hex.DecodeString(lockScript)
+	if err != nil {
+		return false
+	}
+	if len(script) == 26 && script[1] == 0x76 && script[2] == 0xa9 && script[3] == 0x14 {
+		owner := owcrypt.Hash(owcrypt.Hash(sp.PublicKey, 0, owcrypt.HASH_ALG_BLAKE256), 0, owcrypt.HASH_ALG_RIPEMD160)
+		if hex.EncodeToString(owner) != hex.EncodeToString(script[4:24]) {
+			return false
+		}
+	}
+	return owcrypt.Verify(pubkey[1:], nil, hash, sp.Signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS
+}
+
 func (sp SigPub) encodeSignatureToScript(sigType byte) []byte {
 	r := sp.Signature[:32]
 	s := sp.Signature[32:]
-- 
2.43.0


From 051cec9a818c8165240f228fa787e01fe5572182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:49 +0000
Subject: [PATCH 014/106] fix: mateverse verifies the signatures against the
 transaction it combines and the owner of each input

---
 mateverseTransaction/transaction.go | 30 ++++++++++++++++++++++-------
 mateverseTransaction/txIn.go        | 12 ++++++++++++
 mateverseTransaction/txSigPub.go    |  7 +++++--
 3 files changed, 40 insertions(+), 9 deletions(-)

diff --git a/mateverseTransaction/transaction.go b/mateverseTransaction/transaction.go
index 6dd9341..0cab1be 100644
--- a/mateverseTransaction/transaction.go
+++ b/mateverseTransaction/transaction.go
@@ -43,17 +43,22 @@ func GetSigHash(emptyTrans string, inputs *[]*TxInput) error {
 		if err != nil || len(input.txID) != 64 {
 			return errors.New("Invalid txid!")
 		}
-		hashBytes := getHashCalcBytes(*inputs, i)
-
-		hashBytes = append(hashBytes, trans[inputsEnd:]...)
-		hashBytes = append(hashBytes, uint32ToLittleEndianBytes(SigHashAll)...)
-
-		input.hash = hex.EncodeToString(owcrypt.Hash(hashBytes, 0, owcrypt.HASH_ALG_DOUBLE_SHA256))
+		input.hash = calcSigHash(*inputs, i, trans[inputsEnd:])
 	}
 
 	return nil
 }
 
+//calcSigHash returns the hash to be signed for the input of the index, outputs is the part of the transaction after the inputs
+func calcSigHash(inputs []*TxInput, index int, outputs []byte) string {
+	hashBytes := getHashCalcBytes(inputs, index)
+
+	hashBytes = append(hashBytes, outputs...)
+	hashBytes = append(hashBytes, uint32ToLittleEndianBytes(SigHashAll)...)
+
+	return hex.EncodeToString(owcrypt.Hash(hashBytes, 0, owcrypt.HASH_ALG_DOUBLE_SHA256))
+}
+
 func SignTransaction(hash string, prikey []byte) (string, error) {
 	hashBytes, err := hex.DecodeString(hash)
 	if err != nil || len(hashBytes) != 32 {
@@ -74,8 +79,19 @@ func SignTransaction(hash string, prikey []byte) (string, error) {
 }
 
 func VerifyAndCombineTransaction(emptyTrans string, inputs []*TxInput) (bool, string) {
+	trans, err := hex.DecodeString(emptyTrans)
+	if err != nil {
+		return false, ""
+	}
+	emptyInputs, inputsEnd, err := decodeEmptyTx(trans)
+	if err != nil || len(emptyInputs) != len(inputs) {
+		return false, ""
+	}
 
-	for _, input := range inputs {
+	for i, input := range inputs {
+		if input == nil || input.hash != calcSigHash(inputs, i, trans[inputsEnd:]) || !input.ownedByPubkey() {
+			return false, ""
+		}
 		if !verifyTransactionHash(input.pubkey, input.hash, input.signature) {
 			return false, ""
 		}
diff --git a/mateverseTransaction/txIn.go b/mateverseTransaction/txIn.go
index 7747b42..13ccc5e 100644
--- a/mateverseTransaction/txIn.go
+++ b/mateverseTransaction/txIn.go
@@ -4,6 +4,8 @@ import (
 	"encoding/hex"
 	"errors"
 	"strings"
+
+	"github.com/blocktree/go-owcrypt"
 )
 
 type TxInput struct {
@@ -40,6 +42,16 @@ func (tx *TxInput) SetPubKey(pubkey string) {
 	tx.pubkey = pubkey
 }
 
+//ownedByPubkey checks that the pubkey is the one the lock script pays to
+func (tx *TxInput) ownedByPubkey() bool {
+	pubkey, err := hex.DecodeString(tx.pubkey)
+	if err != nil {
+		return false
+	}
+	owner := hex.EncodeToString(owcrypt.Hash(pubkey, 0, owcrypt.HASH_ALG_HASH160))
+	return strings.HasSuffix(strings.ToLower(tx.lockScript), "76a914"+owner+"88ac")
+}
+
 func decodeEmptyTx(tx []byte) ([]*TxInput, int,  error) {
 	var inputs []*TxInput
 
diff --git a/mateverseTransaction/txSigPub.go b/mateverseTransaction/txSigPub.go
index cee0d9e..53421e9 100644
--- a/mateverseTransaction/txSigPub.go
+++ b/mateverseTransaction/txSigPub.go
@@ -72,8 +72,11 @@ func verifyTransactionHash(pubkey, hash, signature string) bool {
 		return false
 	}
 
-	pubBytes = owcrypt.PointDecompress(pubBytes, owcrypt.ECC_CURVE_SECP256K1)[1:]
-	if owcrypt.SUCCESS != owcrypt.Verify(pubBytes, nil, hashBytes, sigBytes, owcrypt.ECC_CURVE_SECP256K1) {
+	pubBytes = owcrypt.PointDecompress(pubBytes, owcrypt.ECC_CURVE_SECP256K1)
+	if len(pubBytes) != 65 {
+		return false
+	}
+	if owcrypt.SUCCESS != owcrypt.Verify(pubBytes[1:], nil, hashBytes, sigBytes, owcrypt.ECC_CURVE_SECP256K1) {
 		return false
 	}
 
-- 
2.43.0


From 063809d49dbff6242b84f4c5865cd179e3922151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:47 +0000
Subject: [PATCH 015/106] fix: hash mateverse lock scripts longer than 252
 bytes with their compact size

---
 mateverseTransaction/txIn.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mateverseTransaction/txIn.go b/mateverseTransaction/txIn.go
index 13ccc5e..bae916a 100644
--- a/mateverseTransaction/txIn.go
+++ b/mateverseTransaction/txIn.go
@@ -166,7 +166,12 @@ func getHashCalcBytes(inputs []*TxInput, index int) []byte {
 		tx = append(tx, uint32ToLittleEndianBytes(input.vout)...)
 		if i == index {
 			lockScript, _ := hex.DecodeString(input.lockScript)
-			tx = append(tx, byte(len(lockScript)))
+			if len(lockScript) < 0xfd {
+				tx = append(tx, byte(len(lockScript)))
+			} else {
+				tx = append(tx, 0xfd)
+				tx = append(tx, uint16ToLittleEndianBytes(uint16(len(lockScript)))...)
+			}
 			tx = append(tx, lockScript...)
 		} else {
 			tx = append(tx, 0x00)
-- 
2.43.0


From daed21029810d8b4655542fed80d478d920d349a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:02:10 +0000
Subject: [PATCH 016/106] fix: hypercash refuses malformed witness data and
 lists more than 252 inputs

---
 hypercashTransaction/TxStruct.go    | 7 +++++++
 hypercashTransaction/transaction.go | 3 ++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/hypercashTransaction/TxStruct.go b/hypercashTransaction/TxStruct.go
index 6e7a25b..bb43038 100644
--- a/hypercashTransaction/TxStruct.go
+++ b/hypercashTransaction/TxStruct.go
@@ -136,6 +136,13 @@ func GetVinList(emptyTrans string) ([]Vin, error) {
 	}
 	count := int(tx[index])
 	index ++
+	if count == 0xfd {
+		if index + 2 > limit {
+			return nil, errors.New("Invalid transaction hex!")
+		}
+		count = int(littleEndianBytesToUint16(tx[index:index+2]))
+		index += 2
+	}
 	if count <= 0 || count != len(trans) - 1{
 		return nil, errors.New("Invalid transaction hex!")
 	}
diff --git a/hypercashTransaction/transaction.go b/hypercashTransaction/transaction.go
index 227bd88..24be82c 100644
--- a/hypercashTransaction/transaction.go
+++ b/hypercashTransaction/transaction.go
@@ -188,8 +188,9 @@ func VerifyAndCombineTransaction(emptyTrans string, sigPub []*SigPub) (bool, str
 			return false, ""
 		}
 
+		//amount(8 bytes), block height(4 bytes) and block index(4 bytes)
 		sigScript, err := hex.DecodeString(sepStr[1])
-		if err != nil {
+		if err != nil || len(sigScript) != 16 {
 			return false, ""
 		}
 
-- 
2.43.0


From 3f1319c4c39404f0fed0aab44db5fec9737deaa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:59 +0000
Subject: [PATCH 017/106] fix: elastos combine refuses missing signatures and
 malformed keys instead of accepting or panicking

---
 elastosTransaction/transaction.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/elastosTransaction/transaction.go b/elastosTransaction/transaction.go
index f76d156..dc780d3 100644
--- a/elastosTransaction/transaction.go
+++ b/elastosTransaction/transaction.go
@@ -71,11 +71,18 @@ func VerifyAndCombineRawTransaction(emptyTrans string, sigPubs []SigPub) (bool,
 		return false, ""
 	}
 
+	if len(sigPubs) == 0 {
+		return false, ""
+	}
+
 	hash := owcrypt.Hash(txBytes, 0, owcrypt.HASH_ALG_SHA256)
 
 	for _, sp := range sigPubs {
-		publicKey := owcrypt.PointDecompress(sp.PublicKey, owcrypt.ECC_CURVE_SECP256R1)[1:]
-		if owcrypt.SUCCESS != owcrypt.Verify(publicKey, nil, hash, sp.Signature, owcrypt.ECC_CURVE_SECP256R1) {
+		point := owcrypt.PointDecompress(sp.PublicKey, owcrypt.ECC_CURVE_SECP256R1)
+		if len(point) != 65 || len(sp.Signature) != 64 {
+			return false, ""
+		}
+		if owcrypt.SUCCESS != owcrypt.Verify(point[1:], nil, hash, sp.Signature, owcrypt.ECC_CURVE_SECP256R1) {
 			return false, ""
 		}
 	}
-- 
2.43.0


From 34032e844695a92c76954bec20bf8a77ed081851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:59 +0000
Subject: [PATCH 018/106] fix: elastos counts of 128 and more are written in
 the network encoding

---
 elastosTransaction/txSignature.go |  2 +-
 elastosTransaction/txStruct.go    |  4 ++--
 elastosTransaction/txUtils.go     | 11 +++++++++++
 3 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/elastosTransaction/txSignature.go b/elastosTransaction/txSignature.go
index 1e7c0fc..8d90653 100644
--- a/elastosTransaction/txSignature.go
+++ b/elastosTransaction/txSignature.go
@@ -32,7 +32,7 @@ func (sp SigPub) ToBytes() ([]byte, error) {
 func (sps Sigpubs) ToBytes() ([]byte, error) {
 	ret := []byte{}
 
-	ret = append(ret, uint64ToUvarint(uint64(len(sps)))...)
+	ret = append(ret, compactSize(len(sps))...)
 	for _, sp := range sps {
 		data, err := sp.ToBytes()
 		if err != nil {
diff --git a/elastosTransaction/txStruct.go b/elastosTransaction/txStruct.go
index 7d7a287..a68f07c 100644
--- a/elastosTransaction/txStruct.go
+++ b/elastosTransaction/txStruct.go
@@ -47,13 +47,13 @@ func (tx Transaction) GetEmptyAndHash() ([]byte, []byte) {
 
 	txBytes = append(txBytes, tx.TxType, tx.PayloadVersion, 0x00) // 0x00 for attributes count
 
-	txBytes = append(txBytes, uint64ToUvarint(uint64(len(tx.Inputs)))...) // input count
+	txBytes = append(txBytes, compactSize(len(tx.Inputs))...) // input count
 
 	for _, input := range tx.Inputs {
 		txBytes = append(txBytes, input.ToBytes()...)
 	}
 
-	txBytes = append(txBytes, uint64ToUvarint(uint64(len(tx.Outputs)))...) // output count
+	txBytes = append(txBytes, compactSize(len(tx.Outputs))...) // output count
 	for _, output := range tx.Outputs {
 		txBytes = append(txBytes, output.ToBytes()...)
 	}
diff --git a/elastosTransaction/txUtils.go b/elastosTransaction/txUtils.go
index 64f11c0..4ce7acb 100644
--- a/elastosTransaction/txUtils.go
+++ b/elastosTransaction/txUtils.go
@@ -62,6 +62,17 @@ func littleEndianBytesToUint16(data []byte) uint16 {
 	return binary.LittleEndian.Uint16(data)
 }
 
+//compactSize encodes a count the way the network serialization does
+func compactSize(n int) []byte {
+	if n < 0xfd {
+		return []byte{byte(n)}
+	}
+	if n <= 0xffff {
+		return append([]byte{0xfd}, uint16ToLittleEndianBytes(uint16(n))...)
+	}
+	return append([]byte{0xfe}, uint32ToLittleEndianBytes(uint32(n))...)
+}
+
 func uint64ToUvarint(x uint64) []byte {
 	ret := [8]byte{}
 
-- 
2.43.0


From 6916b2dabfd043ba2d41f10da832f4af533ec2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:59 +0000
Subject: [PATCH 019/106] fix: bigbang refuses more inputs or data than its
 one-byte counts hold, and an empty address

---
 bigbangTransaction/address.go  | 2 +-
 bigbangTransaction/txStruct.go | 8 ++++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/bigbangTransaction/address.go b/bigbangTransaction/address.go
index 680ab08..0c1e8c1 100644
--- a/bigbangTransaction/address.go
+++ b/bigbangTransaction/address.go
@@ -6,7 +6,7 @@ import (
 )
 
 func addressDecode(address string) ([]byte, error) {
-	if address[:1] != pubkeyPrefix {
+	if len(address) == 0 || address[:1] != pubkeyPrefix {
 		return nil, errors.New("Invalid address, only public key address supported!")
 	}
 
diff --git a/bigbangTransaction/txStruct.go b/bigbangTransaction/txStruct.go
index 539c1c6..70b9aa7 100644
--- a/bigbangTransaction/txStruct.go
+++ b/bigbangTransaction/txStruct.go
@@ -37,6 +37,14 @@ func NewTxStruct(version, txtype uint16, timestamp, lockUntil uint32, anchor str
 		return nil, errors.New("Miss input!")
 	}
 
+	// counts and lengths are written in one byte
+	if len(inputs) > 0xfc {
+		return nil, errors.New("Too many inputs!")
+	}
+	if len(data) > 0xfc {
+		return nil, errors.New("Data is too long!")
+	}
+
 	for _, in := range inputs {
 		input, err := NewTxIn(in.TxID, in.Vout)
 		if err != nil {
-- 
2.43.0


From a1a887792ef260fb95a6a36c87bfef6f10a32b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:59 +0000
Subject: [PATCH 020/106] fix: filenet combine refuses malformed keys and
 recipient counts instead of panicking

---
 filenetTransaction/transaction.go | 7 +++++--
 filenetTransaction/txStruct.go    | 3 +++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/filenetTransaction/transaction.go b/filenetTransaction/transaction.go
index 1232413..1c6fe92 100644
--- a/filenetTransaction/transaction.go
+++ b/filenetTransaction/transaction.go
@@ -66,9 +66,12 @@ func VerifyAndCombineTransaction(emptyTrans, signature, pubkey  string) (string,
 		return "", false
 	}
 
-	pubBytes = owcrypt.PointDecompress(pubBytes, owcrypt.ECC_CURVE_SECP256K1)[1:]
+	point := owcrypt.PointDecompress(pubBytes, owcrypt.ECC_CURVE_SECP256K1)
+	if len(point) != 65 || len(sig) != 64 {
+		return "", false
+	}
 
-	if owcrypt.SUCCESS != owcrypt.Verify(pubBytes, nil, hash, sig, owcrypt.ECC_CURVE_SECP256K1) {
+	if owcrypt.SUCCESS != owcrypt.Verify(point[1:], nil, hash, sig, owcrypt.ECC_CURVE_SECP256K1) {
 		return "", false
 	}
 
diff --git a/filenetTransaction/txStruct.go b/filenetTransaction/txStruct.go
index e1283e2..e0b0d00 100644
--- a/filenetTransaction/txStruct.go
+++ b/filenetTransaction/txStruct.go
@@ -158,6 +158,9 @@ func decodeRawTransaction(emptyTrans, signature string) (*Transfer, error) {
 	transfer.Timestamp = int64(littleEndianBytesToUint64(txBytes[index:index+8]))
 	index += 8
 
+	if toCount > uint64(limit-index)/28 {
+		return nil, errors.New("Invalid empty transaction hex string!")
+	}
 	txDetalis := make(TransferDetails, toCount)
 	for i := 0; i < int(toCount); i ++ {
 		if index + 28 > limit {
-- 
2.43.0


From 604977857f3659f59c59c4a650d40b5c4df2e047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:59 +0000
Subject: [PATCH 021/106] fix: filenet leaves the caller's recipients alone and
 refuses totals beyond 64 bits

---
 filenetTransaction/txStruct.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/filenetTransaction/txStruct.go b/filenetTransaction/txStruct.go
index e0b0d00..4e69da9 100644
--- a/filenetTransaction/txStruct.go
+++ b/filenetTransaction/txStruct.go
@@ -45,6 +45,7 @@ func NewTxStruct(in Vin, outs Vouts) (*TxStruct, error) {
 
 	trans.ToCount = uint64ToLittleEndianBytes(uint64(outCount))
 
+	outs = append(Vouts{}, outs...) // the caller's list keeps its order
 	sort.Sort(outs)
 
 	totleAmount := uint64(0)
@@ -56,6 +57,9 @@ func NewTxStruct(in Vin, outs Vouts) (*TxStruct, error) {
 			return nil, errors.New("Invalid amount!")
 		}
 
+		if totleAmount+out.Amount < totleAmount {
+			return nil, errors.New("Invalid amount!")
+		}
 		totleAmount += out.Amount
 
 		toBytes, err := decodeAddress(out.Address)
-- 
2.43.0


From 7fe84ef3094cfad92be37ab42a5c271722029bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:34 +0000
Subject: [PATCH 022/106] fix: bytom reads and writes counts, amounts and
 positions as varints of any size

---
 bytomTransaction/txIn.go     |  27 +++------
 bytomTransaction/txOut.go    |  18 ++----
 bytomTransaction/txStruct.go | 108 +++++++++++++----------------------
 bytomTransaction/txUtil.go   |  33 ++++++++++-
 4 files changed, 83 insertions(+), 103 deletions(-)

diff --git a/bytomTransaction/txIn.go b/bytomTransaction/txIn.go
index 89eab81..b8a4126 100644
--- a/bytomTransaction/txIn.go
+++ b/bytomTransaction/txIn.go
@@ -184,28 +184,17 @@ func decodeCommitment(script []byte) ([]byte, []byte, []byte, []byte, []byte, er
 	assetID := script[index : index+32]
 	index += 32
 
-	offset := 1
-	for {
-		if index+1 > limit {
-			return nil, nil, nil, nil, nil, errors.New("Invalid commitment data!")
-		}
-
-		if script[index+offset-1] < 0x80 {
-			break
-		} else {
-			offset++
-			continue
-		}
+	amount, _, err := readUvarint(script, index)
+	if err != nil {
+		return nil, nil, nil, nil, nil, err
 	}
-	amount := script[index : index+offset]
-	index += offset
+	index += len(amount)
 
-	if index+1 > limit {
-		return nil, nil, nil, nil, nil, errors.New("Invalid commitment data!")
+	sourcePos, _, err := readUvarint(script, index)
+	if err != nil {
+		return nil, nil, nil, nil, nil, err
 	}
-
-	sourcePos := script[index : index+1]
-	index++
+	index += len(sourcePos)
 
 	if index+1 > limit {
 		return nil, nil, nil, nil, nil, errors.New("Invalid commitment data!")
diff --git a/bytomTransaction/txOut.go b/bytomTransaction/txOut.go
index 56b261c..ef0e666 100644
--- a/bytomTransaction/txOut.go
+++ b/bytomTransaction/txOut.go
@@ -101,21 +101,11 @@ func decodeOutputScript(script []byte) ([]byte, []byte, []byte, error) {
 	assetID := script[index : index+32]
 	index += 32
 
-	offset := 1
-	for {
-		if index+1 > limit {
-			return nil, nil, nil, errors.New("Invalid output script data!")
-		}
-		if script[index+offset-1] < 0x80 {
-			break
-		} else {
-			offset++
-			continue
-		}
+	amount, _, err := readUvarint(script, index)
+	if err != nil {
+		return nil, nil, nil, err
 	}
-
-	amount := script[index : index+offset]
-	index += offset
+	index += len(amount)
 
 	if index+1 > limit {
 		return nil, nil, nil, errors.New("Invalid output script data!")
diff --git a/bytomTransaction/txStruct.go b/bytomTransaction/txStruct.go
index fe41dd5..6b5c269 100644
--- a/bytomTransaction/txStruct.go
+++ b/bytomTransaction/txStruct.go
@@ -68,7 +68,7 @@ func (t Transaction) toBytes() ([]byte, error) {
 	ret = append(ret, t.Version...)
 	ret = append(ret, t.TimeRange...)
 
-	ret = append(ret, byte(len(t.Inputs)))
+	ret = append(ret, uint64ToUvarint(uint64(len(t.Inputs)))...)
 
 	for _, in := range t.Inputs {
 		inBytes, err := in.toBytes()
@@ -78,7 +78,7 @@ func (t Transaction) toBytes() ([]byte, error) {
 		ret = append(ret, inBytes...)
 	}
 
-	ret = append(ret, byte(len(t.Outputs)))
+	ret = append(ret, uint64ToUvarint(uint64(len(t.Outputs)))...)
 
 	for _, out := range t.Outputs {
 		outBytes, err := out.toBytes()
@@ -111,51 +111,36 @@ func DecodeRawTransaction(txBytes []byte) (*Transaction, error) {
 	index++
 
 	// get transaction version
-	offset := 1
-	for {
-		if index+1 > limit {
-			return nil, errors.New("Invalid transaction data!")
-		}
-		if txBytes[index+offset-1] < 0x80 {
-			break
-		} else {
-			index++
-			continue
-		}
+	version, versionValue, err := readUvarint(txBytes, index)
+	if err != nil {
+		return nil, err
 	}
-
-	rawTx.Version = txBytes[index : index+offset]
-	index += offset
+	if versionValue != DefaultTransactionVersion {
+		return nil, errors.New("Invalid transaction version!")
+	}
+	rawTx.Version = version
+	index += len(version)
 
 	// get range time
-	offset = 1
-	for {
-		if index+1 > limit {
-			return nil, errors.New("Invalid transaction data!")
-		}
-		if txBytes[index+offset-1] < 0x80 {
-			break
-		} else {
-			offset++
-			continue
-		}
+	timeRange, _, err := readUvarint(txBytes, index)
+	if err != nil {
+		return nil, err
 	}
-
-	rawTx.TimeRange = txBytes[index : index+offset]
-	index += offset
+	rawTx.TimeRange = timeRange
+	index += len(timeRange)
 
 	//get count of inputs
-	if index+1 > limit {
-		return nil, errors.New("Invalid transaction data!")
+	count, numOfVins, err := readUvarint(txBytes, index)
+	if err != nil {
+		return nil, err
 	}
-	numOfVins := txBytes[index]
-	index++
+	index += len(count)
 	if numOfVins <= 0 {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
 	// get vins
-	for i := byte(0); i < numOfVins; i++ {
+	for i := uint64(0); i < numOfVins; i++ {
 		var in TxIn
 		// get asset version of inputs
 		if index+1 > limit {
@@ -165,21 +150,13 @@ func DecodeRawTransaction(txBytes []byte) (*Transaction, error) {
 			return nil, errors.New("Invalid input asset version!")
 		}
 		index++
-		//get commitment length
-		if index+1 > limit {
-			return nil, errors.New("Invalid transaction data!")
-		}
-		commitLength := int(txBytes[index])
-		if commitLength == 0 {
-			return nil, errors.New("Invalid transaction data!")
-		}
-		index++
-
-		if index+commitLength > limit {
-			return nil, errors.New("Invalid transaction data!")
+		//get commitment
+		commitment, next, err := readVarBytes(txBytes, index)
+		if err != nil {
+			return nil, err
 		}
 
-		sourceID, assetID, amount, sourcePos, controlProgram, err := decodeCommitment(txBytes[index : index+commitLength])
+		sourceID, assetID, amount, sourcePos, controlProgram, err := decodeCommitment(commitment)
 		if err != nil {
 			return nil, err
 		}
@@ -189,7 +166,7 @@ func DecodeRawTransaction(txBytes []byte) (*Transaction, error) {
 		in.SourcePosition = sourcePos
 		in.ControlProgram = controlProgram
 
-		index += commitLength
+		index = next
 
 		if index+1 > limit {
 			return nil, errors.New("Invalid transaction data!")
@@ -247,16 +224,16 @@ func DecodeRawTransaction(txBytes []byte) (*Transaction, error) {
 		rawTx.Inputs = append(rawTx.Inputs, in)
 	}
 	//get count of outputs
-	if index+1 > limit {
-		return nil, errors.New("Invalid transaction data!")
+	count, numOfVouts, err := readUvarint(txBytes, index)
+	if err != nil {
+		return nil, err
 	}
-	numOfVouts := txBytes[index]
-	index++
+	index += len(count)
 	if numOfVouts == 0 {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
-	for i := byte(0); i < numOfVouts; i++ {
+	for i := uint64(0); i < numOfVouts; i++ {
 		var out TxOut
 		if index+1 > limit {
 			return nil, errors.New("Invalid transaction data!")
@@ -266,26 +243,19 @@ func DecodeRawTransaction(txBytes []byte) (*Transaction, error) {
 			return nil, errors.New("Invalid transaction data!")
 		}
 		index++
-		//get length of out script
-		if index+1 > limit {
-			return nil, errors.New("Invalid transaction data!")
-		}
-		oLen := txBytes[index]
-		if oLen == 0 {
-			return nil, errors.New("Invalid transaction data!")
-		}
-		index++
-		if index+int(oLen) > limit {
-			return nil, errors.New("Invalid transaction data!")
+		//get out script
+		script, next, err := readVarBytes(txBytes, index)
+		if err != nil {
+			return nil, err
 		}
-		assetID, amount, controlProgram, err := decodeOutputScript(txBytes[index : index+int(oLen)])
+		assetID, amount, controlProgram, err := decodeOutputScript(script)
 		if err != nil {
 			return nil, err
 		}
 		out.AssetID = assetID
 		out.Amount = amount
 		out.ControlProgram = controlProgram
-		index += int(oLen)
+		index = next
 
 		rawTx.Outputs = append(rawTx.Outputs, out)
 
@@ -375,7 +345,7 @@ func (t Transaction) getMuxID() ([]byte, error) {
 
 	var msgBytes []byte
 
-	msgBytes = append(msgBytes, byte(len(spendID)))
+	msgBytes = append(msgBytes, uint64ToUvarint(uint64(len(spendID)))...)
 
 	for i := 0; i < len(spendID); i++ {
 		msgBytes = append(msgBytes, spendID[i]...)
@@ -465,7 +435,7 @@ func (t Transaction) getTxID() ([]byte, error) {
 	}
 	msgBytes = append(msgBytes, uint64ToLittleEndianBytes(t.GetTimeRange())...)
 
-	msgBytes = append(msgBytes, byte(len(t.Outputs)))
+	msgBytes = append(msgBytes, uint64ToUvarint(uint64(len(t.Outputs)))...)
 
 	for _, o := range outID {
 		msgBytes = append(msgBytes, o...)
diff --git a/bytomTransaction/txUtil.go b/bytomTransaction/txUtil.go
index f67ebe3..54e6640 100644
--- a/bytomTransaction/txUtil.go
+++ b/bytomTransaction/txUtil.go
@@ -1,11 +1,13 @@
 package bytomTransaction
 
 import (
+	"bytes"
 	"encoding/binary"
+	"errors"
 )
 
 func uint64ToUvarint(x uint64) []byte {
-	ret := [8]byte{}
+	ret := [binary.MaxVarintLen64]byte{}
 
 	len := binary.PutUvarint(ret[:], x)
 
@@ -29,6 +31,35 @@ func uvarintToUint64(buf []byte) uint64 {
 	return ret
 }
 
+//readUvarint reads the varint at index, and returns its bytes and its value
+func readUvarint(data []byte, index int) ([]byte, uint64, error) {
+	if index >= len(data) {
+		return nil, 0, errors.New("Invalid transaction data!")
+	}
+	value, length := binary.Uvarint(data[index:])
+	if length <= 0 {
+		return nil, 0, errors.New("Invalid transaction data!")
+	}
+	raw := data[index : index+length]
+	if !bytes.Equal(raw, uint64ToUvarint(value)) {
+		return nil, 0, errors.New("Invalid transaction data!")
+	}
+	return raw, value, nil
+}
+
+//readVarBytes reads the varint length at index and that many bytes, and returns them with the index behind them
+func readVarBytes(data []byte, index int) ([]byte, int, error) {
+	raw, length, err := readUvarint(data, index)
+	if err != nil {
+		return nil, 0, err
+	}
+	index += len(raw)
+	if length == 0 || length > uint64(len(data)-index) {
+		return nil, 0, errors.New("Invalid transaction data!")
+	}
+	return data[index : index+int(length)], index + int(length), nil
+}
+
 //uint64ToLittleEndianBytes
 func uint64ToLittleEndianBytes(data uint64) []byte {
 	tmp := [8]byte{}
-- 
2.43.0


From b32ebe68d5988491e6f20c2fbd056e70311353db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:59 +0000
Subject: [PATCH 023/106] fix: bytom multisig witnesses are written and read
 for any number of keys and signatures

---
 bytomTransaction/transaction.go |  2 +-
 bytomTransaction/txHash.go      |  8 ++---
 bytomTransaction/txMultiSig.go  | 56 ++++++++++++++----------------
 bytomTransaction/txStruct.go    | 61 ++++++---------------------------
 4 files changed, 40 insertions(+), 87 deletions(-)

diff --git a/bytomTransaction/transaction.go b/bytomTransaction/transaction.go
index c1d3371..4f25893 100644
--- a/bytomTransaction/transaction.go
+++ b/bytomTransaction/transaction.go
@@ -178,7 +178,7 @@ func VerifyRawTransaction(txHex string) bool {
 
 	for i := 0; i < len(txHashes); i++ {
 		if len(signedTrans.Inputs[i].ControlProgram) == 0x22 {
-			sigs, pubs, err := getMultiSigPubs(signedTrans.Inputs[i].MultiSig)
+			sigs, pubs, _, err := getMultiSigPubs(signedTrans.Inputs[i].MultiSig)
 			if err != nil {
 				return false
 			}
diff --git a/bytomTransaction/txHash.go b/bytomTransaction/txHash.go
index 477f850..199c8cd 100644
--- a/bytomTransaction/txHash.go
+++ b/bytomTransaction/txHash.go
@@ -69,9 +69,7 @@ func (th TxHash) getMultiSigBytes() ([]byte, []byte, error) {
 
 	scriptHash = append([]byte{0x00, 0x20}, scriptHash...)
 
-	sigBytes := []byte{}
-
-	sigBytes = append(sigBytes, 0x01, 0x03)
+	sigBytes := []byte{th.NRequired + 1} // the signatures and the script
 
 	count := 0
 	for _, sp := range th.Multi {
@@ -95,9 +93,9 @@ func (th TxHash) getMultiSigBytes() ([]byte, []byte, error) {
 		return nil, nil, errors.New("Not competely signed!")
 	}
 
-	sigBytes = append(sigBytes, byte(len(signScript)))
+	sigBytes = append(sigBytes, uint64ToUvarint(uint64(len(signScript)))...)
 	sigBytes = append(sigBytes, signScript...)
 
-	sigBytes = append([]byte{byte(len(sigBytes) - 1)}, sigBytes...)
+	sigBytes = append(uint64ToUvarint(uint64(len(sigBytes))), sigBytes...)
 	return sigBytes, scriptHash, nil
 }
diff --git a/bytomTransaction/txMultiSig.go b/bytomTransaction/txMultiSig.go
index c7bf728..b343b4e 100644
--- a/bytomTransaction/txMultiSig.go
+++ b/bytomTransaction/txMultiSig.go
@@ -114,7 +114,7 @@ func getMultiSigDetail(signScript []byte) ([]MultiTx, byte, error) {
 	return multi, required, nil
 }
 
-func getMultiSigPubs(sp []byte) ([][]byte, [][]byte, error) {
+func getMultiSigPubs(sp []byte) ([][]byte, [][]byte, []byte, error) {
 
 	var sigs [][]byte
 	var pubs [][]byte
@@ -122,25 +122,23 @@ func getMultiSigPubs(sp []byte) ([][]byte, [][]byte, error) {
 	limit := len(sp)
 	index := 0
 
-	if index+2 > limit {
-		return nil, nil, errors.New("Invalid signature and public key data!")
+	sp, index, err := readVarBytes(sp, index)
+	if err != nil || index != limit {
+		return nil, nil, nil, errors.New("Invalid signature and public key data!")
 	}
-
-	if sp[index] != 0x01 || sp[index+1] != 0x03 {
-		return nil, nil, errors.New("Invalid signature and public key data!")
-	}
-
-	index += 2
+	limit = len(sp)
+	argCount := int(sp[0]) // the signatures and the script
+	index = 1
 
 	for {
 		if index+1 > limit {
-			return nil, nil, errors.New("Invalid signature and public key data!")
+			return nil, nil, nil, errors.New("Invalid signature and public key data!")
 		}
 
 		if sp[index] == 0x40 {
 			index++
 			if index+0x40 > limit {
-				return nil, nil, errors.New("Invalid signature and public key data!")
+				return nil, nil, nil, errors.New("Invalid signature and public key data!")
 			}
 			sigs = append(sigs, sp[index:index+0x40])
 			index += 0x40
@@ -150,26 +148,22 @@ func getMultiSigPubs(sp []byte) ([][]byte, [][]byte, error) {
 	}
 
 	if index+1 > limit {
-		return nil, nil, errors.New("Invalid signature and public key data!")
+		return nil, nil, nil, errors.New("Invalid signature and public key data!")
 	}
 
-	commitLen := int(sp[index])
-
-	index++
-
-	if index+commitLen != limit {
-		return nil, nil, errors.New("Invalid signature and public key data!")
-	}
-	if index+1 > limit {
-		return nil, nil, errors.New("Invalid signature and public key data!")
+	script, next, err := readVarBytes(sp, index)
+	if err != nil || next != limit || argCount != len(sigs)+1 {
+		return nil, nil, nil, errors.New("Invalid signature and public key data!")
 	}
+	index = next - len(script)
+
 	if sp[index] != Op_TxSignHash {
-		return nil, nil, errors.New("Invalid signature and public key data!")
+		return nil, nil, nil, errors.New("Invalid signature and public key data!")
 	}
 	index++
 	for {
 		if index+1 > limit {
-			return nil, nil, errors.New("Invalid signature and public key data!")
+			return nil, nil, nil, errors.New("Invalid signature and public key data!")
 		}
 		if sp[index] != 0x20 {
 			break
@@ -177,7 +171,7 @@ func getMultiSigPubs(sp []byte) ([][]byte, [][]byte, error) {
 		index++
 
 		if index+0x20 > limit {
-			return nil, nil, errors.New("Invalid signature and public key data!")
+			return nil, nil, nil, errors.New("Invalid signature and public key data!")
 		}
 
 		pubs = append(pubs, sp[index:index+0x20])
@@ -189,31 +183,31 @@ func getMultiSigPubs(sp []byte) ([][]byte, [][]byte, error) {
 	index++
 
 	if index+1 > limit {
-		return nil, nil, errors.New("Invalid signature and public key data!")
+		return nil, nil, nil, errors.New("Invalid signature and public key data!")
 	}
 
 	count := sp[index] - (Op_1 - 1)
 	index++
 
 	if int(count) != len(pubs) {
-		return nil, nil, errors.New("Invalid signature and public key data!")
+		return nil, nil, nil, errors.New("Invalid signature and public key data!")
 	}
 
 	if int(required) != len(sigs) {
-		return nil, nil, errors.New("Not competely signed!")
+		return nil, nil, nil, errors.New("Not competely signed!")
 	}
 	if index+1 > limit {
-		return nil, nil, errors.New("Invalid signature and public key data!")
+		return nil, nil, nil, errors.New("Invalid signature and public key data!")
 	}
 
 	if sp[index] != Op_CheckMultiSig {
-		return nil, nil, errors.New("Invalid signature and public key data!")
+		return nil, nil, nil, errors.New("Invalid signature and public key data!")
 	}
 	index++
 
 	if index != limit {
-		return nil, nil, errors.New("Invalid signature and public key data!")
+		return nil, nil, nil, errors.New("Invalid signature and public key data!")
 	}
 
-	return sigs, pubs, nil
+	return sigs, pubs, script, nil
 }
diff --git a/bytomTransaction/txStruct.go b/bytomTransaction/txStruct.go
index 6b5c269..b1ae05d 100644
--- a/bytomTransaction/txStruct.go
+++ b/bytomTransaction/txStruct.go
@@ -168,58 +168,19 @@ func DecodeRawTransaction(txBytes []byte) (*Transaction, error) {
 
 		index = next
 
-		if index+1 > limit {
-			return nil, errors.New("Invalid transaction data!")
+		witness, next, err := readVarBytes(txBytes, index)
+		if err != nil {
+			return nil, err
 		}
-		if txBytes[index] == 0x01 {
-			if index+2 > limit {
-				return nil, errors.New("Invalid transaction data!")
-			}
-			if txBytes[index+1] != 0x00 {
-				return nil, errors.New("Invalid transaction data!")
-			} else {
-				in.SigPub = nil
-				index += 2
-			}
+		index = next
+		if len(witness) == 1 && witness[0] == 0x00 {
+			in.SigPub = nil
+		} else if len(witness) == 0x63 && witness[0] == 0x02 && witness[1] == 0x40 && witness[66] == 0x20 {
+			in.SigPub = &SigPub{witness[2:66], witness[67:]}
+		} else if len(in.ControlProgram) == 34 {
+			in.MultiSig = append(uint64ToUvarint(uint64(len(witness))), witness...)
 		} else {
-			spScriptLen := int(txBytes[index])
-			if spScriptLen == 0 {
-				return nil, errors.New("Invalid transaction data!")
-			}
-			index++
-			if index+2 > limit {
-				return nil, errors.New("Invalid transaction data!")
-			}
-			if txBytes[index] == 0x02 && txBytes[index+1] == 0x40 {
-				index += 2
-				if index+64 > limit {
-					return nil, errors.New("Invalid transaction data!")
-				}
-				sig := txBytes[index : index+64]
-				index += 64
-				if index+1 > limit {
-					return nil, errors.New("Invalid transaction data!")
-				}
-				if txBytes[index] != 32 {
-					return nil, errors.New("Invalid transaction data!")
-				}
-				index++
-				if index+32 > limit {
-					return nil, errors.New("Invalid transaction data!")
-				}
-				pub := txBytes[index : index+32]
-				index += 32
-				in.SigPub = &SigPub{sig, pub}
-			} else if txBytes[index] == 0x01 && txBytes[index+1] == 0x03 {
-
-				if index+spScriptLen+1 > limit {
-					return nil, errors.New("Invalid transaction data!")
-				}
-				in.MultiSig = txBytes[index : index+spScriptLen+1]
-				index += spScriptLen + 1
-			} else {
-				return nil, errors.New("Invalid transaction data!")
-			}
+			return nil, errors.New("Invalid transaction data!")
 		}
 		rawTx.Inputs = append(rawTx.Inputs, in)
 	}
-- 
2.43.0


From b10ef2cd1d186175877abc56ed62bfddf68c59e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:00 +0000
Subject: [PATCH 024/106] fix: bytom verification checks the owner of each
 input and counts every key once

---
 bytomTransaction/transaction.go | 43 ++++++++++++++++++++++++---------
 bytomTransaction/txIn.go        |  2 +-
 bytomTransaction/txMultiSig.go  |  2 +-
 3 files changed, 33 insertions(+), 14 deletions(-)

diff --git a/bytomTransaction/transaction.go b/bytomTransaction/transaction.go
index 4f25893..23040b1 100644
--- a/bytomTransaction/transaction.go
+++ b/bytomTransaction/transaction.go
@@ -1,8 +1,10 @@
 package bytomTransaction
 
 import (
+	"bytes"
 	"encoding/hex"
 	"errors"
+	"strings"
 
 	owcrypt "github.com/blocktree/go-owcrypt"
 )
@@ -24,11 +26,11 @@ func CreateEmptyRawTransaction(vins []Vin, vouts []Vout, timeRange uint64, isTes
 
 	for _, addr := range vouts {
 		if isTestNet {
-			if addr.Address[:2] != Bech32HRPSegwitTestNet {
+			if !strings.HasPrefix(addr.Address, Bech32HRPSegwitTestNet) {
 				return "", errors.New("Invalid address to send!")
 			}
 		} else {
-			if addr.Address[:2] != Bech32HRPSegwitMainNet {
+			if !strings.HasPrefix(addr.Address, Bech32HRPSegwitMainNet) {
 				return "", errors.New("Invalid address to send!")
 			}
 		}
@@ -124,16 +126,25 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash) (strin
 		return "", errors.New("Invalid empty transaction,no output found!")
 	}
 
+	if len(txHashes) != len(emptyTrans.Inputs) {
+		return "", errors.New("The number of signatures and inputs do not match!")
+	}
+
 	for i := 0; i < len(txHashes); i++ {
 		if txHashes[i].IsMultiSig() {
 			multiSigData, controlProgram, err := txHashes[i].getMultiSigBytes()
 			if err != nil {
 				return "", err
 			}
-			emptyTrans.Inputs[i].ControlProgram = controlProgram
+			if !bytes.Equal(emptyTrans.Inputs[i].ControlProgram, controlProgram) {
+				return "", errors.New("The multisig account does not own the input!")
+			}
 			emptyTrans.Inputs[i].MultiSig = multiSigData
 			emptyTrans.Inputs[i].SigPub = nil
 		} else {
+			if txHashes[i].Normal == nil {
+				return "", errors.New("No signature data found!")
+			}
 			emptyTrans.Inputs[i].SigPub = &txHashes[i].Normal.SigPub
 			emptyTrans.Inputs[i].MultiSig = nil
 		}
@@ -178,23 +189,31 @@ func VerifyRawTransaction(txHex string) bool {
 
 	for i := 0; i < len(txHashes); i++ {
 		if len(signedTrans.Inputs[i].ControlProgram) == 0x22 {
-			sigs, pubs, _, err := getMultiSigPubs(signedTrans.Inputs[i].MultiSig)
+			sigs, pubs, script, err := getMultiSigPubs(signedTrans.Inputs[i].MultiSig)
 			if err != nil {
 				return false
 			}
-			count := 0
+			if !bytes.Equal(owcrypt.Hash(script, 0, owcrypt.HASH_ALG_SHA3_256), signedTrans.Inputs[i].ControlProgram[2:]) {
+				return false
+			}
+			// each signature needs a key of its own, in the order of the script
+			k := 0
 			for j := 0; j < len(sigs); j++ {
-				for k := j; k < len(pubs); k++ {
-					if owcrypt.SUCCESS == owcrypt.Verify(pubs[k], nil, txHashes[i], sigs[j], owcrypt.ECC_CURVE_ED25519_NORMAL) {
-						count++
-					}
+				for k < len(pubs) && owcrypt.SUCCESS != owcrypt.Verify(pubs[k], nil, txHashes[i], sigs[j], owcrypt.ECC_CURVE_ED25519_NORMAL) {
+					k++
 				}
+				if k == len(pubs) {
+					return false
+				}
+				k++
 			}
-
-			if count != len(sigs) {
+		} else {
+			if signedTrans.Inputs[i].SigPub == nil {
+				return false
+			}
+			if !bytes.Equal(owcrypt.Hash(signedTrans.Inputs[i].SigPub.Pubkey, 0, owcrypt.HASH_ALG_HASH160), signedTrans.Inputs[i].ControlProgram[2:]) {
 				return false
 			}
-		} else {
 			if owcrypt.SUCCESS != owcrypt.Verify(signedTrans.Inputs[i].SigPub.Pubkey, nil, txHashes[i], signedTrans.Inputs[i].SigPub.Signature, owcrypt.ECC_CURVE_ED25519_NORMAL) {
 				return false
 			}
diff --git a/bytomTransaction/txIn.go b/bytomTransaction/txIn.go
index b8a4126..fcf9d59 100644
--- a/bytomTransaction/txIn.go
+++ b/bytomTransaction/txIn.go
@@ -208,7 +208,7 @@ func decodeCommitment(script []byte) ([]byte, []byte, []byte, []byte, []byte, er
 		return nil, nil, nil, nil, nil, errors.New("Invalid commitment data!")
 	}
 	controlLen := int(script[index])
-	if controlLen == 0 {
+	if controlLen != 22 && controlLen != 34 {
 		return nil, nil, nil, nil, nil, errors.New("Invalid commitment data!")
 	}
 
diff --git a/bytomTransaction/txMultiSig.go b/bytomTransaction/txMultiSig.go
index b343b4e..5df955c 100644
--- a/bytomTransaction/txMultiSig.go
+++ b/bytomTransaction/txMultiSig.go
@@ -88,7 +88,7 @@ func getMultiSigDetail(signScript []byte) ([]MultiTx, byte, error) {
 
 	required := signScript[index] - (Op_1 - 1)
 
-	if required <= 0 {
+	if required <= 0 || int(required) > len(multi) {
 		return nil, 0, errors.New("Invalid required number for a multi sigScript!")
 	}
 	index++
-- 
2.43.0


From 7c5f5061a7ff0046627771ae7cbd061c070ee7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:31 +0000
Subject: [PATCH 025/106] fix: decoding an address that is too short is an
 error, not a panic

---
 aliencoinTransaction/base58.go      | 3 +++
 bitcoincashTransaction/base58.go    | 3 +++
 bitcoinsvTransaction/base58.go      | 3 +++
 btcLikeTxDriver/base58.go           | 3 +++
 btcTransaction/base58.go            | 3 +++
 cxcTransaction/base58.go            | 3 +++
 elastosTransaction/base58.go        | 3 +++
 fiiiTransaction/base58.go           | 3 +++
 hcTransaction/base58.go             | 3 +++
 hypercashTransaction/base58.go      | 3 +++
 omniTransaction/base58.go           | 3 +++
 ontologyTransaction/base58.go       | 3 +++
 vergeTransaction/base58.go          | 3 +++
 virtualeconomyTransaction/base58.go | 3 +++
 vollarTransaction/base58.go         | 3 +++
 waykichainTransaction/base58.go     | 3 +++
 zencashTransaction/base58.go        | 3 +++
 17 files changed, 51 insertions(+)

diff --git a/aliencoinTransaction/base58.go b/aliencoinTransaction/base58.go
index 53908d2..227ccfb 100644
--- a/aliencoinTransaction/base58.go
+++ b/aliencoinTransaction/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string) (byte, []byte, error) {
 	if err != nil {
 		return 0, nil, errors.New("Invalid address!")
 	}
+	if len(ret) < 5 {
+		return 0, nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
diff --git a/bitcoincashTransaction/base58.go b/bitcoincashTransaction/base58.go
index d518067..334a8fb 100644
--- a/bitcoincashTransaction/base58.go
+++ b/bitcoincashTransaction/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 	if err != nil {
 		return nil, nil, errors.New("Invalid address!")
 	}
+	if len(ret) < 4+0x14 {
+		return nil, nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
diff --git a/bitcoinsvTransaction/base58.go b/bitcoinsvTransaction/base58.go
index af85206..3209e4b 100644
--- a/bitcoinsvTransaction/base58.go
+++ b/bitcoinsvTransaction/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 	if err != nil {
 		return nil, nil, errors.New("Invalid address!")
 	}
+	if len(ret) < 4+0x14 {
+		return nil, nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
diff --git a/btcLikeTxDriver/base58.go b/btcLikeTxDriver/base58.go
index a6a9b0d..8881a34 100644
--- a/btcLikeTxDriver/base58.go
+++ b/btcLikeTxDriver/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string) (byte, []byte, error) {
 	if err != nil {
 		return 0, nil, errors.New("Invalid address!")
 	}
+	if len(ret) < 5 {
+		return 0, nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
diff --git a/btcTransaction/base58.go b/btcTransaction/base58.go
index 96f8fe2..ebd84fd 100644
--- a/btcTransaction/base58.go
+++ b/btcTransaction/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 	if err != nil {
 		return nil, nil, errors.New("Invalid address!")
 	}
+	if len(ret) < 4+0x14 {
+		return nil, nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
diff --git a/cxcTransaction/base58.go b/cxcTransaction/base58.go
index ccd7ea2..3bd3c50 100644
--- a/cxcTransaction/base58.go
+++ b/cxcTransaction/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 	if err != nil {
 		return nil, nil, errors.New("Invalid address!")
 	}
+	if len(ret) < 4+0x14 {
+		return nil, nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
diff --git a/elastosTransaction/base58.go b/elastosTransaction/base58.go
index 04054e6..7fe396b 100644
--- a/elastosTransaction/base58.go
+++ b/elastosTransaction/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 	if err != nil {
 		return nil, nil, errors.New("Invalid address!")
 	}
+	if len(ret) < 4+0x14 {
+		return nil, nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
diff --git a/fiiiTransaction/base58.go b/fiiiTransaction/base58.go
index 2226867..e351c84 100644
--- a/fiiiTransaction/base58.go
+++ b/fiiiTransaction/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string, prefix []byte) ([]byte, error) {
 	if err != nil {
 		return nil, errors.New("Invalid address!")
 	}
+	if len(ret) < len(prefix)+4 {
+		return nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
diff --git a/hcTransaction/base58.go b/hcTransaction/base58.go
index 772572c..cd61066 100644
--- a/hcTransaction/base58.go
+++ b/hcTransaction/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 	if err != nil {
 		return nil, nil, errors.New("Invalid address!")
 	}
+	if len(ret) < 4+0x14 {
+		return nil, nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
diff --git a/hypercashTransaction/base58.go b/hypercashTransaction/base58.go
index 020220b..3b3b96e 100644
--- a/hypercashTransaction/base58.go
+++ b/hypercashTransaction/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 	if err != nil {
 		return nil, nil, errors.New("Invalid address!")
 	}
+	if len(ret) < 4+0x14 {
+		return nil, nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_BLAKE256), 0, owcrypt.HASH_ALG_BLAKE256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
diff --git a/omniTransaction/base58.go b/omniTransaction/base58.go
index b080ce9..c2764e8 100644
--- a/omniTransaction/base58.go
+++ b/omniTransaction/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 	if err != nil {
 		return nil, nil, errors.New("Invalid address!")
 	}
+	if len(ret) < 4+0x14 {
+		return nil, nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
diff --git a/ontologyTransaction/base58.go b/ontologyTransaction/base58.go
index 3f28e8c..2cf7f8f 100644
--- a/ontologyTransaction/base58.go
+++ b/ontologyTransaction/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string) (byte, []byte, error) {
 	if err != nil {
 		return 0, nil, errors.New("Invalid address!")
 	}
+	if len(ret) < 5 {
+		return 0, nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
diff --git a/vergeTransaction/base58.go b/vergeTransaction/base58.go
index 7b1da8a..d2fb594 100644
--- a/vergeTransaction/base58.go
+++ b/vergeTransaction/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string) (byte, []byte, error) {
 	if err != nil {
 		return 0, nil, errors.New("Invalid address!")
 	}
+	if len(ret) < 5 {
+		return 0, nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
diff --git a/virtualeconomyTransaction/base58.go b/virtualeconomyTransaction/base58.go
index 999f35b..22f9a76 100644
--- a/virtualeconomyTransaction/base58.go
+++ b/virtualeconomyTransaction/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string) ([]byte, error) {
 	if err != nil {
 		return nil, errors.New("Invalid address!")
 	}
+	if len(ret) < 5 {
+		return nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(owcrypt.Hash(ret[:len(ret)-4], 32, owcrypt.HASH_ALG_BLAKE2B), 0, owcrypt.HASH_ALG_KECCAK256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
diff --git a/vollarTransaction/base58.go b/vollarTransaction/base58.go
index 786201c..6a80f62 100644
--- a/vollarTransaction/base58.go
+++ b/vollarTransaction/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 	if err != nil {
 		return nil, nil, errors.New("Invalid address!")
 	}
+	if len(ret) < 4+0x14 {
+		return nil, nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
diff --git a/waykichainTransaction/base58.go b/waykichainTransaction/base58.go
index 80d3f60..3b97d58 100644
--- a/waykichainTransaction/base58.go
+++ b/waykichainTransaction/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 	if err != nil {
 		return nil, nil, errors.New("Invalid address!")
 	}
+	if len(ret) < 4+0x14 {
+		return nil, nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
diff --git a/zencashTransaction/base58.go b/zencashTransaction/base58.go
index 25b462c..7bec569 100644
--- a/zencashTransaction/base58.go
+++ b/zencashTransaction/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 	if err != nil {
 		return nil, nil, errors.New("Invalid address!")
 	}
+	if len(ret) < 4+0x14 {
+		return nil, nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
-- 
2.43.0


From b49b9f28f73a9d355b1645b67acfebf71fa3b97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:31 +0000
Subject: [PATCH 026/106] fix: encoding an address does not write into the
 prefix it is given

---
 bitcoincashTransaction/base58.go | 2 +-
 bitcoinsvTransaction/base58.go   | 2 +-
 btcTransaction/base58.go         | 2 +-
 cxcTransaction/base58.go         | 2 +-
 elastosTransaction/base58.go     | 2 +-
 fiiiTransaction/base58.go        | 2 +-
 hcTransaction/base58.go          | 2 +-
 hypercashTransaction/base58.go   | 2 +-
 omniTransaction/base58.go        | 2 +-
 vollarTransaction/base58.go      | 2 +-
 waykichainTransaction/base58.go  | 2 +-
 zencashTransaction/base58.go     | 2 +-
 12 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/bitcoincashTransaction/base58.go b/bitcoincashTransaction/base58.go
index 334a8fb..6d2fefb 100644
--- a/bitcoincashTransaction/base58.go
+++ b/bitcoincashTransaction/base58.go
@@ -170,7 +170,7 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 }
 
 func EncodeCheck(prefix []byte, hash []byte) string {
-	data := append(prefix, hash...)
+	data := append(append([]byte{}, prefix...), hash...)
 	checksum := owcrypt.Hash(data, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	data = append(data, checksum...)
 	return Encode(data, BitcoinAlphabet)
diff --git a/bitcoinsvTransaction/base58.go b/bitcoinsvTransaction/base58.go
index 3209e4b..c43bc7f 100644
--- a/bitcoinsvTransaction/base58.go
+++ b/bitcoinsvTransaction/base58.go
@@ -170,7 +170,7 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 }
 
 func EncodeCheck(prefix []byte, hash []byte) string {
-	data := append(prefix, hash...)
+	data := append(append([]byte{}, prefix...), hash...)
 	checksum := owcrypt.Hash(data, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	data = append(data, checksum...)
 	return Encode(data, BitcoinAlphabet)
diff --git a/btcTransaction/base58.go b/btcTransaction/base58.go
index ebd84fd..e0fab09 100644
--- a/btcTransaction/base58.go
+++ b/btcTransaction/base58.go
@@ -170,7 +170,7 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 }
 
 func EncodeCheck(prefix []byte, hash []byte) string {
-	data := append(prefix, hash...)
+	data := append(append([]byte{}, prefix...), hash...)
 	checksum := owcrypt.Hash(data, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	data = append(data, checksum...)
 	return Encode(data, BitcoinAlphabet)
diff --git a/cxcTransaction/base58.go b/cxcTransaction/base58.go
index 3bd3c50..df1e8e0 100644
--- a/cxcTransaction/base58.go
+++ b/cxcTransaction/base58.go
@@ -170,7 +170,7 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 }
 
 func EncodeCheck(prefix []byte, hash []byte) string {
-	data := append(prefix, hash...)
+	data := append(append([]byte{}, prefix...), hash...)
 	checksum := owcrypt.Hash(data, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	data = append(data, checksum...)
 	return Encode(data, BitcoinAlphabet)
diff --git a/elastosTransaction/base58.go b/elastosTransaction/base58.go
index 7fe396b..644ef79 100644
--- a/elastosTransaction/base58.go
+++ b/elastosTransaction/base58.go
@@ -170,7 +170,7 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 }
 
 func EncodeCheck(prefix []byte, hash []byte) string {
-	data := append(prefix, hash...)
+	data := append(append([]byte{}, prefix...), hash...)
 	checksum := owcrypt.Hash(data, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	data = append(data, checksum...)
 	return Encode(data, BitcoinAlphabet)
diff --git a/fiiiTransaction/base58.go b/fiiiTransaction/base58.go
index e351c84..e2cf5c0 100644
--- a/fiiiTransaction/base58.go
+++ b/fiiiTransaction/base58.go
@@ -179,7 +179,7 @@ func DecodeCheck(address string, prefix []byte) ([]byte, error) {
 }
 
 func EncodeCheck(prefix []byte, hash []byte) string {
-	data := append(prefix, hash...)
+	data := append(append([]byte{}, prefix...), hash...)
 	checksum := owcrypt.Hash(data, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	data = append(data, checksum...)
 	return Encode(data, BitcoinAlphabet)
diff --git a/hcTransaction/base58.go b/hcTransaction/base58.go
index cd61066..cbb57cf 100644
--- a/hcTransaction/base58.go
+++ b/hcTransaction/base58.go
@@ -170,7 +170,7 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 }
 
 func EncodeCheck(prefix []byte, hash []byte) string {
-	data := append(prefix, hash...)
+	data := append(append([]byte{}, prefix...), hash...)
 	checksum := owcrypt.Hash(data, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	data = append(data, checksum...)
 	return Encode(data, BitcoinAlphabet)
diff --git a/hypercashTransaction/base58.go b/hypercashTransaction/base58.go
index 3b3b96e..6ca7fed 100644
--- a/hypercashTransaction/base58.go
+++ b/hypercashTransaction/base58.go
@@ -170,7 +170,7 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 }
 
 func EncodeCheck(prefix []byte, hash []byte) string {
-	data := append(prefix, hash...)
+	data := append(append([]byte{}, prefix...), hash...)
 	checksum := owcrypt.Hash(owcrypt.Hash(data, 0, owcrypt.HASH_ALG_BLAKE256), 0, owcrypt.HASH_ALG_BLAKE256)[:4]
 	data = append(data, checksum...)
 	return Encode(data, BitcoinAlphabet)
diff --git a/omniTransaction/base58.go b/omniTransaction/base58.go
index c2764e8..4450514 100644
--- a/omniTransaction/base58.go
+++ b/omniTransaction/base58.go
@@ -170,7 +170,7 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 }
 
 func EncodeCheck(prefix []byte, hash []byte) string {
-	data := append(prefix, hash...)
+	data := append(append([]byte{}, prefix...), hash...)
 	checksum := owcrypt.Hash(data, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	data = append(data, checksum...)
 	return Encode(data, BitcoinAlphabet)
diff --git a/vollarTransaction/base58.go b/vollarTransaction/base58.go
index 6a80f62..156ada9 100644
--- a/vollarTransaction/base58.go
+++ b/vollarTransaction/base58.go
@@ -170,7 +170,7 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 }
 
 func EncodeCheck(prefix []byte, hash []byte) string {
-	data := append(prefix, hash...)
+	data := append(append([]byte{}, prefix...), hash...)
 	checksum := owcrypt.Hash(data, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	data = append(data, checksum...)
 	return Encode(data, BitcoinAlphabet)
diff --git a/waykichainTransaction/base58.go b/waykichainTransaction/base58.go
index 3b97d58..bf79246 100644
--- a/waykichainTransaction/base58.go
+++ b/waykichainTransaction/base58.go
@@ -170,7 +170,7 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 }
 
 func EncodeCheck(prefix []byte, hash []byte) string {
-	data := append(prefix, hash...)
+	data := append(append([]byte{}, prefix...), hash...)
 	checksum := owcrypt.Hash(data, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	data = append(data, checksum...)
 	return Encode(data, BitcoinAlphabet)
diff --git a/zencashTransaction/base58.go b/zencashTransaction/base58.go
index 7bec569..4107926 100644
--- a/zencashTransaction/base58.go
+++ b/zencashTransaction/base58.go
@@ -170,7 +170,7 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 }
 
 func EncodeCheck(prefix []byte, hash []byte) string {
-	data := append(prefix, hash...)
+	data := append(append([]byte{}, prefix...), hash...)
 	checksum := owcrypt.Hash(data, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	data = append(data, checksum...)
 	return Encode(data, BitcoinAlphabet)
-- 
2.43.0


From 5bad96aa4fb127e8c1b908f568457cf9a394fc1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:01 +0000
Subject: [PATCH 027/106] fix: ripple combine accepts only the signing key of
 the transaction and refuses malformed shares

---
 rippleTransaction/transaction.go | 18 +++++++++++++++---
 rippleTransaction/txStruct.go    |  3 +++
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/rippleTransaction/transaction.go b/rippleTransaction/transaction.go
index 7635b80..e889df9 100644
--- a/rippleTransaction/transaction.go
+++ b/rippleTransaction/transaction.go
@@ -41,10 +41,22 @@ func VerifyAndCombinRawTransaction(emptyTrans string, signature, publicKey strin
 	if err != nil {
 		return false, ""
 	}
-	pubkeyBytes = owcrypt.PointDecompress(pubkeyBytes, owcrypt.ECC_CURVE_SECP256K1)[1:]
-	if owcrypt.SUCCESS != owcrypt.Verify(pubkeyBytes, nil, hash, sigBytes, owcrypt.ECC_CURVE_SECP256K1) {
+	// the signature goes behind the signing key it has to be made with
+	at := strings.Index(emptyTrans, "s")
+	signingPubKey, err := getSigningPubKeyBytes(publicKey)
+	if err != nil || !strings.HasSuffix(strings.ToLower(emptyTrans[:at]), hex.EncodeToString(signingPubKey)) {
+		return false, ""
+	}
+	point := owcrypt.PointDecompress(pubkeyBytes, owcrypt.ECC_CURVE_SECP256K1)
+	if len(point) != 65 {
+		return false, ""
+	}
+	if owcrypt.SUCCESS != owcrypt.Verify(point[1:], nil, hash, sigBytes, owcrypt.ECC_CURVE_SECP256K1) {
+		return false, ""
+	}
+	txnSignature, err := getTxnSignatureBytes(signature)
+	if err != nil {
 		return false, ""
 	}
-	txnSignature, _ := getTxnSignatureBytes(signature)
 	return true, strings.Replace(emptyTrans, "s", hex.EncodeToString(txnSignature), -1)
 }
diff --git a/rippleTransaction/txStruct.go b/rippleTransaction/txStruct.go
index 37190d4..e89cbc3 100644
--- a/rippleTransaction/txStruct.go
+++ b/rippleTransaction/txStruct.go
@@ -221,6 +221,9 @@ func (tx TxStruct) GetHash() []byte {
 }
 
 func getHashFromEmptyRawHex(emptyTrans string) ([]byte, error) {
+	if strings.Count(emptyTrans, "s") != 1 {
+		return nil, errors.New("Invalid empty raw transaction data!")
+	}
 	emptyTrans = strings.Replace(emptyTrans, "s", "", -1)
 	txBytes, err := hex.DecodeString(emptyTrans)
 	if err != nil {
-- 
2.43.0


From cf224e03e328eef5f7fc5f4642d62d68ed8c8d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:02 +0000
Subject: [PATCH 028/106] fix: ripple memos longer than 192 bytes keep their
 length, and amounts and tags that do not fit are refused

---
 rippleTransaction/txStruct.go | 13 +++++++++++++
 rippleTransaction/txUtils.go  |  6 ++++++
 2 files changed, 19 insertions(+)

diff --git a/rippleTransaction/txStruct.go b/rippleTransaction/txStruct.go
index e89cbc3..2d8708c 100644
--- a/rippleTransaction/txStruct.go
+++ b/rippleTransaction/txStruct.go
@@ -65,6 +65,9 @@ func getAmountBytes(amount uint64) ([]byte, error) {
 	if amount == 0 {
 		return nil, errors.New("Amount cannot be zero!")
 	}
+	if amount >= 1<<62 {
+		return nil, errors.New("Amount is too large!")
+	}
 	enc := getEncBytes(encodings["Amount"])
 	amountValue := newValue(true, false, amount, 0)
 	return append(enc, amountValue.Bytes()...), nil
@@ -74,6 +77,9 @@ func getFeeBytes(fee uint64) ([]byte, error) {
 	if fee == 0 {
 		return nil, errors.New("Fee cannot be zero!")
 	}
+	if fee >= 1<<62 {
+		return nil, errors.New("Fee is too large!")
+	}
 	enc := getEncBytes(encodings["Fee"])
 	feeValue := newValue(true, false, fee, 0)
 	return append(enc, feeValue.Bytes()...), nil
@@ -140,6 +146,13 @@ func NewTxStruct(from, pubkey string, sequence uint32, to string, amount, fee ui
 		err      error
 	)
 
+	if destinationTag > 0xffffffff {
+		return nil, errors.New("Invalid destination tag!")
+	}
+	if memoData != "" && (len(memoType) > maxMemoLength || len(memoData) > maxMemoLength || len(memoFormat) > maxMemoLength) {
+		return nil, errors.New("Memo is too long!")
+	}
+
 	txStruct.TransactionType = getTransactionTypeBytes(PAYMENT)
 	txStruct.Flags = getFlagsBytes(TxCanonicalSignature)
 	txStruct.Sequence = getSequenceBytes(sequence)
diff --git a/rippleTransaction/txUtils.go b/rippleTransaction/txUtils.go
index d82c267..a04e299 100644
--- a/rippleTransaction/txUtils.go
+++ b/rippleTransaction/txUtils.go
@@ -113,6 +113,12 @@ func serilizeS(sig []byte) []byte {
 	return sig
 }
 
+//maxMemoLength is the largest length the two-byte form can hold
+const maxMemoLength = 12480
+
 func memoToBytes(memo string) []byte {
+	if length := len(memo) - 193; length >= 0 {
+		return append([]byte{byte(193 + length>>8), byte(length)}, []byte(memo)...)
+	}
 	return append([]byte{byte(len(memo))}, []byte(memo)...)
 }
-- 
2.43.0


From 6c04a008b0af8bb682653604af4abf2c6372c497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:30 +0000
Subject: [PATCH 029/106] fix: ontology combine refuses missing and malformed
 signatures instead of accepting or panicking

---
 ontologyTransaction/transaction.go | 17 +++++++++++++++--
 ontologyTransaction/txSigPub.go    |  3 +++
 ontologyTransaction/txStruct.go    |  2 +-
 3 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/ontologyTransaction/transaction.go b/ontologyTransaction/transaction.go
index cd77e3f..d74c02f 100644
--- a/ontologyTransaction/transaction.go
+++ b/ontologyTransaction/transaction.go
@@ -96,11 +96,21 @@ func VerifyAndCombineRawTransaction(emptyTrans string, sigpub []SigPub) (bool, s
 		return false, "", err
 	}
 
+	if tx.SigDatas != nil {
+		return false, "", errors.New("The transaction is signed already!")
+	}
+	if len(sigpub) == 0 || len(sigpub) > 0xfc {
+		return false, "", errors.New("Invalid number of signatures!")
+	}
+
 	hashBytes := owcrypt.Hash(owcrypt.Hash(txBytes[:len(txBytes)-1], 0, owcrypt.HASH_ALG_DOUBLE_SHA256), 0, owcrypt.HASH_ALG_SHA256)
 	sigData.Nrequired = 0
 	for _, sp := range sigpub {
-		pubkey := owcrypt.PointDecompress(sp.PublicKey, owcrypt.ECC_CURVE_SECP256R1)[1:]
-		if owcrypt.SUCCESS != owcrypt.Verify(pubkey, nil, hashBytes, sp.Signature, owcrypt.ECC_CURVE_SECP256R1) {
+		point := owcrypt.PointDecompress(sp.PublicKey, owcrypt.ECC_CURVE_SECP256R1)
+		if len(point) != 65 || len(sp.PublicKey) != 33 || len(sp.Signature) != 64 {
+			return false, "", errors.New("Invalid signature or public key!")
+		}
+		if owcrypt.SUCCESS != owcrypt.Verify(point[1:], nil, hashBytes, sp.Signature, owcrypt.ECC_CURVE_SECP256R1) {
 			return false, "", errors.New("failed to verify transaction!")
 		}
 		sigData.SigPubs = append(sigData.SigPubs, sp)
@@ -108,5 +118,8 @@ func VerifyAndCombineRawTransaction(emptyTrans string, sigpub []SigPub) (bool, s
 	tx.SigDatas = append(tx.SigDatas, sigData)
 
 	signedTx, err := tx.ToBytes()
+	if err != nil {
+		return false, "", err
+	}
 	return true, hex.EncodeToString(signedTx), nil
 }
diff --git a/ontologyTransaction/txSigPub.go b/ontologyTransaction/txSigPub.go
index 4d9a442..d152dd1 100644
--- a/ontologyTransaction/txSigPub.go
+++ b/ontologyTransaction/txSigPub.go
@@ -105,6 +105,9 @@ func decodeSigPubBytes(sp []byte) (*SigPub, error) {
 	}
 	index += 2
 
+	if index+33 > limit {
+		return nil, errors.New("Invalid signature & public key data!")
+	}
 	ret.PublicKey = sp[index : index+33]
 	index += 33
 
diff --git a/ontologyTransaction/txStruct.go b/ontologyTransaction/txStruct.go
index 76d618b..0fa7039 100644
--- a/ontologyTransaction/txStruct.go
+++ b/ontologyTransaction/txStruct.go
@@ -197,7 +197,7 @@ func DecodeRawTransaction(txBytes []byte) (*Transaction, error) {
 			return nil, errors.New("Invalid transaction data!")
 		}
 	} else if txBytes[index] == 0x01 {
-		sigpub, err := decodeSigPubBytes(txBytes[index:])
+		sigpub, err := decodeSigPubBytes(txBytes[index+1:])
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 423d7b37e802af8e2874090ee2bd10fdc18dcba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:30 +0000
Subject: [PATCH 030/106] fix: ontology reports a failing entropy source
 instead of using a zero nonce

---
 ontologyTransaction/transaction.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ontologyTransaction/transaction.go b/ontologyTransaction/transaction.go
index d74c02f..bcf644f 100644
--- a/ontologyTransaction/transaction.go
+++ b/ontologyTransaction/transaction.go
@@ -36,6 +36,9 @@ func CreateRawTransactionAndHash(gasPrice, gasLimit uint64, txState TxState) (st
 	}
 	randNounce := make([]byte, 4)
 	_, err = rand.Read(randNounce[:])
+	if err != nil {
+		return "", nil, err
+	}
 
 	txBytes, err := NewEmptyTransaction(txState.AssetType, TxTypeInvoke, littleEndianBytesToUint32(randNounce), gasPrice, gasLimit, txState.Payer, payLoad).ToBytes()
 	if err != nil {
@@ -62,6 +65,9 @@ func CreateRawTransactionAndHashV2(gasPrice, gasLimit uint64, txState TxStateV2)
 	}
 	randNounce := make([]byte, 4)
 	_, err = rand.Read(randNounce[:])
+	if err != nil {
+		return "", nil, err
+	}
 
 	txBytes, err := NewEmptyTransaction(txState.AssetType, TxTypeInvoke, littleEndianBytesToUint32(randNounce), gasPrice, gasLimit, txState.Payer, payLoad).ToBytes()
 	if err != nil {
-- 
2.43.0


From 9a1ab82b6fa12bc9e562969524a46513dcde2e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:31 +0000
Subject: [PATCH 031/106] fix: ontology refuses unknown assets, foreign payers
 and amounts it cannot encode

---
 ontologyTransaction/transaction.go  | 3 +++
 ontologyTransaction/txInvokeCode.go | 6 ++++++
 ontologyTransaction/txStruct.go     | 8 +++++++-
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/ontologyTransaction/transaction.go b/ontologyTransaction/transaction.go
index bcf644f..bffa85e 100644
--- a/ontologyTransaction/transaction.go
+++ b/ontologyTransaction/transaction.go
@@ -59,6 +59,9 @@ func CreateRawTransactionAndHashV2(gasPrice, gasLimit uint64, txState TxStateV2)
 	if txState.Payer == "" {
 		txState.Payer = txState.From
 	}
+	if txState.Amount == nil || txState.Amount.Sign() < 0 {
+		return "", nil, errors.New("Invalid amount!")
+	}
 	payLoad, err := NewNativeInvokeV2(txState).ToBytes()
 	if err != nil {
 		return "", nil, err
diff --git a/ontologyTransaction/txInvokeCode.go b/ontologyTransaction/txInvokeCode.go
index bdfbde9..71dac05 100644
--- a/ontologyTransaction/txInvokeCode.go
+++ b/ontologyTransaction/txInvokeCode.go
@@ -61,6 +61,9 @@ func NewNativeInvokeV2(param TxStateV2) NativeInvokeV2 {
 }
 
 func (ni NativeInvoke) ToBytes() ([]byte, error) {
+	if ni.Param.AssetType != AssetONT && ni.Param.AssetType != AssetONG && ni.Param.AssetType != AssetONGWithdraw {
+		return nil, errors.New("Invalid asset type!")
+	}
 	ret := []byte{0x00}
 
 	ret = append(ret, OpCodeNewStruct, OpCodeToALTStack, OpCodeDupFromALTStack)
@@ -127,6 +130,9 @@ func (ni NativeInvoke) ToBytes() ([]byte, error) {
 }
 
 func (ni NativeInvokeV2) ToBytes() ([]byte, error) {
+	if ni.Param.AssetType != AssetONT && ni.Param.AssetType != AssetONG && ni.Param.AssetType != AssetONGWithdraw {
+		return nil, errors.New("Invalid asset type!")
+	}
 	ret := []byte{0x00}
 
 	ret = append(ret, OpCodeNewStruct, OpCodeToALTStack, OpCodeDupFromALTStack)
diff --git a/ontologyTransaction/txStruct.go b/ontologyTransaction/txStruct.go
index 0fa7039..48a77bf 100644
--- a/ontologyTransaction/txStruct.go
+++ b/ontologyTransaction/txStruct.go
@@ -24,7 +24,10 @@ func NewEmptyTransaction(assetType int, txType byte, nonce uint32, gasPrice, gas
 	} else {
 		version = ONGContractVersion
 	}
-	_, payerBytes, _ := DecodeCheck(payer)
+	prefix, payerBytes, err := DecodeCheck(payer)
+	if err != nil || prefix != AddressPrefix {
+		payerBytes = nil // refused by ToBytes
+	}
 	return Transaction{version, txType, uint32ToLittleEndianBytes(nonce), uint64ToLittleEndianBytes(gasPrice), uint64ToLittleEndianBytes(gasLimit), payerBytes, payload, DefaultAttribute, nil}
 }
 
@@ -81,6 +84,9 @@ func (t Transaction) ToBytes() ([]byte, error) {
 	if t.Payload == nil || len(t.Payload) == 0 {
 		return nil, errors.New("Invalid invoke code!")
 	}
+	if len(t.Payload) > 0xfc {
+		return nil, errors.New("Invoke code is too long!")
+	}
 	ret = append(ret, byte(len(t.Payload)))
 	ret = append(ret, t.Payload...)
 	ret = append(ret, t.Attributes)
-- 
2.43.0


From b67cfdfac1bea3d3bed7d15dbfc4884e2fbb35b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:12 +0000
Subject: [PATCH 032/106] fix: binance chain combine refuses malformed
 documents and keys instead of panicking

---
 binancechainTransaction/transaction.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/binancechainTransaction/transaction.go b/binancechainTransaction/transaction.go
index 5115741..9261f58 100644
--- a/binancechainTransaction/transaction.go
+++ b/binancechainTransaction/transaction.go
@@ -55,6 +55,9 @@ func VerifyAndCombineRawTransaction(emptyTrans, signature, pubkey string) (bool,
 	if err != nil {
 		return false, ""
 	}
+	if len(stdSignDoc.Msgs) != 1 || stdSignDoc.ChainID != ChainID {
+		return false, ""
+	}
 	signMsg.Memo = stdSignDoc.Memo
 	err = json.Unmarshal(stdSignDoc.Msgs[0], &sendMsg)
 	if err != nil {
@@ -83,7 +86,11 @@ func VerifyAndCombineRawTransaction(emptyTrans, signature, pubkey string) (bool,
 		 return false, ""
 	}
 
-	pubUncompressedBytes := owcrypt.PointDecompress(pubBytes, owcrypt.ECC_CURVE_SECP256K1)[1:]
+	point := owcrypt.PointDecompress(pubBytes, owcrypt.ECC_CURVE_SECP256K1)
+	if len(point) != 65 {
+		return false, ""
+	}
+	pubUncompressedBytes := point[1:]
 	hash := tx.StdSignBytes(ChainID, signMsg.AccountNumber, signMsg.Sequence, signMsg.Msgs, signMsg.Memo, signMsg.Source, signMsg.Data)
 
 	hash = owcrypt.Hash(hash, 0, owcrypt.HASH_ALG_SHA256)
-- 
2.43.0


From 4a8c1f4847fce27482552e1fc9695746abcf66b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:12 +0000
Subject: [PATCH 033/106] fix: polkadot encodes amounts of 2^63 and more with
 the right length

---
 polkadotTransaction/codec.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polkadotTransaction/codec.go b/polkadotTransaction/codec.go
index edd827e..80b60dc 100644
--- a/polkadotTransaction/codec.go
+++ b/polkadotTransaction/codec.go
@@ -89,7 +89,7 @@ func BytesToCompactBytes(bytes []byte) (res []byte) {
 }
 
 func getLeadingZeros(data uint64) int {
-	return 64 - big.NewInt(int64(data)).BitLen()
+	return 64 - new(big.Int).SetUint64(data).BitLen()
 }
 
 func getPrefix(data uint64) string {
-- 
2.43.0


From b8e9b9874a9bf96ef1c8a7acafe52fa2ed08ee5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:13 +0000
Subject: [PATCH 034/106] fix: polkadot refuses a malformed sender key or
 transfer code

---
 polkadotTransaction/txMethod.go | 5 ++++-
 polkadotTransaction/txStruct.go | 8 ++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/polkadotTransaction/txMethod.go b/polkadotTransaction/txMethod.go
index cc85c5c..710bb88 100644
--- a/polkadotTransaction/txMethod.go
+++ b/polkadotTransaction/txMethod.go
@@ -38,7 +38,10 @@ func (mt MethodTransfer) ToBytes(transferCode string) ([]byte, error) {
 		return nil, errors.New("invalid method")
 	}
 
-	ret, _ := hex.DecodeString(transferCode)
+	ret, err := hex.DecodeString(transferCode)
+	if err != nil || len(ret) == 0 {
+		return nil, errors.New("invalid transfer code")
+	}
 	if AccounntIDFollow {
 		ret = append(ret, 0xff)
 	}
diff --git a/polkadotTransaction/txStruct.go b/polkadotTransaction/txStruct.go
index 8f4a389..041c253 100644
--- a/polkadotTransaction/txStruct.go
+++ b/polkadotTransaction/txStruct.go
@@ -25,6 +25,10 @@ type TxStruct struct {
 
 func (tx TxStruct) NewTxPayLoad(transfer_code string) (*TxPayLoad, error) {
 	var tp TxPayLoad
+	sender, err := hex.DecodeString(tx.SenderPubkey)
+	if err != nil || len(sender) != 32 {
+		return nil, errors.New("invalid sender public key")
+	}
 	method, err := NewMethodTransfer(tx.RecipientPubkey, tx.Amount)
 	if err != nil {
 		return nil, err
@@ -115,7 +119,7 @@ func (ts TxStruct) GetSignedTransaction (transfer_code, signature string) (strin
 
 	from, err := hex.DecodeString(ts.SenderPubkey)
 	if err != nil || len(from) != 32 {
-		return "", nil
+		return "", errors.New("invalid sender public key")
 	}
 
 	signed = append(signed, from...)
@@ -124,7 +128,7 @@ func (ts TxStruct) GetSignedTransaction (transfer_code, signature string) (strin
 
 	sig, err := hex.DecodeString(signature)
 	if err != nil || len(sig) != 64 {
-		return "", nil
+		return "", errors.New("invalid signature")
 	}
 	signed = append(signed, sig...)
 
-- 
2.43.0


From a3f5e2f260324422cccebaeea3b7b19208b4afa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:43 +0000
Subject: [PATCH 035/106] fix: waykichain combine refuses malformed
 transactions and shares instead of panicking

---
 waykichainTransaction/transaction.go | 7 +++++--
 waykichainTransaction/txStruct.go    | 3 +++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/waykichainTransaction/transaction.go b/waykichainTransaction/transaction.go
index 427e613..43f5156 100644
--- a/waykichainTransaction/transaction.go
+++ b/waykichainTransaction/transaction.go
@@ -63,9 +63,12 @@ func VerifyAndCombineRawTransaction(emptyTrans string, sigPub SigPub) (bool, str
 	if err != nil {
 		return false, ""
 	}
-	pubkey := owcrypt.PointDecompress(sigPub.PublicKey, owcrypt.ECC_CURVE_SECP256K1)[1:]
+	point := owcrypt.PointDecompress(sigPub.PublicKey, owcrypt.ECC_CURVE_SECP256K1)
+	if len(point) != 65 || len(sigPub.Signature) != 64 {
+		return false, ""
+	}
 
-	if owcrypt.SUCCESS != owcrypt.Verify(pubkey, nil, hash, sigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) {
+	if owcrypt.SUCCESS != owcrypt.Verify(point[1:], nil, hash, sigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) {
 		return false, ""
 	}
 
diff --git a/waykichainTransaction/txStruct.go b/waykichainTransaction/txStruct.go
index be2fa1f..f0cb93a 100644
--- a/waykichainTransaction/txStruct.go
+++ b/waykichainTransaction/txStruct.go
@@ -316,6 +316,9 @@ func getHashFromEmptyRawTrans(emptyTrans string) ([]byte, error) {
 		return nil, errors.New("Invalid transaction hex data!")
 	}
 
+	if len(txBytes) < 2 {
+		return nil, errors.New("Invalid transaction hex data!")
+	}
 	if (txBytes[0] != TxType_COMMON && txBytes[0] != TxType_REGACCT && txBytes[0] != TxType_CONTRACT && txBytes[0] != TxType_UcoinTransfer) || txBytes[1] != byte(Version) {
 		return nil, errors.New("Invalid transaction hex data!")
 	}
-- 
2.43.0


From 408ed86356a7a52e0318618adbf6321a45502a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:44 +0000
Subject: [PATCH 036/106] fix: waykichain refuses a register ID it cannot read
 instead of using account 0

---
 waykichainTransaction/txStruct.go | 50 ++++++++++---------------------
 waykichainTransaction/txUtils.go  | 19 ++++++++++++
 2 files changed, 34 insertions(+), 35 deletions(-)

diff --git a/waykichainTransaction/txStruct.go b/waykichainTransaction/txStruct.go
index f0cb93a..a080c5c 100644
--- a/waykichainTransaction/txStruct.go
+++ b/waykichainTransaction/txStruct.go
@@ -3,8 +3,6 @@ package waykichainTransaction
 import (
 	"encoding/hex"
 	"errors"
-	"strconv"
-	"strings"
 
 	owcrypt "github.com/blocktree/go-owcrypt"
 )
@@ -29,16 +27,11 @@ func NewCommonTx(fromUserID, toAddress string, amount, fee, validHeight int64) (
 	}
 	commonTx.ValidHeight = int64ToUvarint(validHeight)
 
-	if !isRegIdStr(fromUserID) {
-		return nil, errors.New("Invalid from register ID!")
-	}
-	ids := strings.Split(fromUserID, "-")
-	idBytes := []byte{}
-	for _, id := range ids {
-		data, _ := strconv.ParseInt(id, 10, 64)
-		idBytes = append(idBytes, int64ToUvarint(data)...)
+	fromID, err := regIDToBytes(fromUserID)
+	if err != nil {
+		return nil, err
 	}
-	commonTx.FromUserID = append([]byte{byte(len(idBytes))}, idBytes...)
+	commonTx.FromUserID = fromID
 
 	destID, err := GetProgramHashFromAddress(toAddress)
 	if err != nil {
@@ -159,27 +152,16 @@ func NewCallContractTx(fromUserID, appID, contractHex string, validHeight, fee,
 		return nil, errors.New("Negative valid height!")
 	}
 	contractTx.ValidHeight = int64ToUvarint(validHeight)
-	if !isRegIdStr(fromUserID) {
-		return nil, errors.New("Invalid from register ID!")
-	}
-	ids := strings.Split(fromUserID, "-")
-	idBytes := []byte{}
-	for _, id := range ids {
-		data, _ := strconv.ParseInt(id, 10, 64)
-		idBytes = append(idBytes, int64ToUvarint(data)...)
+	fromID, err := regIDToBytes(fromUserID)
+	if err != nil {
+		return nil, err
 	}
-	contractTx.FromUserID = append([]byte{byte(len(idBytes))}, idBytes...)
+	contractTx.FromUserID = fromID
 
-	if !isRegIdStr(appID) {
-		return nil, errors.New("Invalid from register ID!")
-	}
-	ids = strings.Split(appID, "-")
-	idBytes = []byte{}
-	for _, id := range ids {
-		data, _ := strconv.ParseInt(id, 10, 64)
-		idBytes = append(idBytes, int64ToUvarint(data)...)
+	contractTx.AppID, err = regIDToBytes(appID)
+	if err != nil {
+		return nil, err
 	}
-	contractTx.AppID = append([]byte{byte(len(idBytes))}, idBytes...)
 
 	contractTx.Fee = int64ToUvarint(fee)
 
@@ -244,13 +226,11 @@ func NewUcoinTransferTx(fromUserID, toAddress, coin string, validHeight, fee, am
 	}
 	ucoinTransferTx.ValidHeight = int64ToUvarint(validHeight)
 
-	ids := strings.Split(fromUserID, "-")
-	idBytes := []byte{}
-	for _, id := range ids {
-		data, _ := strconv.ParseInt(id, 10, 64)
-		idBytes = append(idBytes, int64ToUvarint(data)...)
+	fromID, err := regIDToBytes(fromUserID)
+	if err != nil {
+		return nil, err
 	}
-	ucoinTransferTx.FromUserID = append([]byte{byte(len(idBytes))}, idBytes...)
+	ucoinTransferTx.FromUserID = fromID
 
 	ucoinTransferTx.FeeSymbol = append([]byte{byte(len(DefaultFeeSymbol))}, []byte(DefaultFeeSymbol)...)
 
diff --git a/waykichainTransaction/txUtils.go b/waykichainTransaction/txUtils.go
index 8b256f8..6623bb9 100644
--- a/waykichainTransaction/txUtils.go
+++ b/waykichainTransaction/txUtils.go
@@ -1,7 +1,10 @@
 package waykichainTransaction
 
 import (
+	"errors"
 	"regexp"
+	"strconv"
+	"strings"
 )
 
 func sizeofVarInt(value int64) int {
@@ -56,3 +59,19 @@ func isRegIdStr(regId string) bool {
 	re := regexp.MustCompile(`^\s*(\d+)\-(\d+)\s*$`)
 	return re.MatchString(regId)
 }
+
+//regIDToBytes encodes a register ID like 25813-1
+func regIDToBytes(regID string) ([]byte, error) {
+	if !isRegIdStr(regID) {
+		return nil, errors.New("Invalid register ID!")
+	}
+	idBytes := []byte{}
+	for _, id := range strings.Split(strings.TrimSpace(regID), "-") {
+		data, err := strconv.ParseInt(id, 10, 64)
+		if err != nil {
+			return nil, errors.New("Invalid register ID!")
+		}
+		idBytes = append(idBytes, int64ToUvarint(data)...)
+	}
+	return append([]byte{byte(len(idBytes))}, idBytes...), nil
+}
-- 
2.43.0


From 22f7257c0999dbddb3385ba3f5ac1628e646e73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:45 +0000
Subject: [PATCH 037/106] fix: waykichain keeps the length of long contract
 data and refuses negative amounts

---
 waykichainTransaction/transaction.go |  3 +++
 waykichainTransaction/txStruct.go    |  4 ++--
 waykichainTransaction/txUtils.go     | 12 ++++++++++++
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/waykichainTransaction/transaction.go b/waykichainTransaction/transaction.go
index 43f5156..e976cd7 100644
--- a/waykichainTransaction/transaction.go
+++ b/waykichainTransaction/transaction.go
@@ -13,6 +13,9 @@ import (
 // appID - contract regID when txType is TxType_CONTRACT
 // appID - coin name when txType is TxType_UcoinTransfer
 func CreateEmptyRawTransactionAndHash(fromUserID, to, appID string, amount, fee, validHeight int64, txType byte) (string, string, error) {
+	if amount < 0 || fee < 0 {
+		return "", "", errors.New("Negative amount or fee!")
+	}
 	if txType == TxType_COMMON {
 		txCommon, err := NewCommonTx(fromUserID, to, amount, fee, validHeight)
 		if err != nil {
diff --git a/waykichainTransaction/txStruct.go b/waykichainTransaction/txStruct.go
index a080c5c..87c0077 100644
--- a/waykichainTransaction/txStruct.go
+++ b/waykichainTransaction/txStruct.go
@@ -171,7 +171,7 @@ func NewCallContractTx(fromUserID, appID, contractHex string, validHeight, fee,
 	if err != nil {
 		return nil, errors.New("Invalid contract hex!")
 	}
-	contractTx.ContractHex = append([]byte{byte(len(contract))}, contract...)
+	contractTx.ContractHex = withLength(contract)
 
 	return &contractTx, nil
 }
@@ -247,7 +247,7 @@ func NewUcoinTransferTx(fromUserID, toAddress, coin string, validHeight, fee, am
 		return nil, errors.New("Invalid coin name!")
 	}
 
-	ucoinTransferTx.CoinName = append([]byte{byte(len(coin))}, []byte(coin)...)
+	ucoinTransferTx.CoinName = withLength([]byte(coin))
 
 	ucoinTransferTx.CoinAmount = int64ToUvarint(amount)
 
diff --git a/waykichainTransaction/txUtils.go b/waykichainTransaction/txUtils.go
index 6623bb9..56c494b 100644
--- a/waykichainTransaction/txUtils.go
+++ b/waykichainTransaction/txUtils.go
@@ -75,3 +75,15 @@ func regIDToBytes(regID string) ([]byte, error) {
 	}
 	return append([]byte{byte(len(idBytes))}, idBytes...), nil
 }
+
+//withLength puts the compact size of data in front of it
+func withLength(data []byte) []byte {
+	length := len(data)
+	if length < 0xfd {
+		return append([]byte{byte(length)}, data...)
+	}
+	if length <= 0xffff {
+		return append([]byte{0xfd, byte(length), byte(length >> 8)}, data...)
+	}
+	return append([]byte{0xfe, byte(length), byte(length >> 8), byte(length >> 16), byte(length >> 24)}, data...)
+}
-- 
2.43.0


From a137df5463932359c5a6060b47a64d1bf6e24f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:10 +0000
Subject: [PATCH 038/106] fix: moac transactions with small integers or longer
 than 55 bytes are encoded and combined as the network expects

---
 moacchainTransaction/transaction.go |  18 ++---
 moacchainTransaction/txStruct.go    | 113 ++++++----------------------
 moacchainTransaction/txUtils.go     |   3 +
 3 files changed, 35 insertions(+), 99 deletions(-)

diff --git a/moacchainTransaction/transaction.go b/moacchainTransaction/transaction.go
index 52f9ffb..b8943e9 100644
--- a/moacchainTransaction/transaction.go
+++ b/moacchainTransaction/transaction.go
@@ -1,6 +1,7 @@
 package moacchainTransaction
 
 import (
+	"bytes"
 	"encoding/hex"
 	"errors"
 	"math/big"
@@ -37,6 +38,13 @@ func VerifyAndCombineRawTransaction(emptyTrans, signature, publicKey string, isT
 	if err != nil {
 		return false, ""
 	}
+	headLength := 1
+	if len(txBytes) > 56 {
+		headLength = 2
+	}
+	if len(txBytes) < headLength || !bytes.HasPrefix(txBytes, getHeadBytes(SmallTag, LargeTag, uint64(len(txBytes)-headLength))) {
+		return false, ""
+	}
 	hash := owcrypt.Hash(txBytes, 0, owcrypt.HASH_ALG_KECCAK256)
 	sig, err := hex.DecodeString(signature)
 	if err != nil || len(sig) != 65 || (sig[64] != 0x01) && sig[64] != 0x00 {
@@ -49,15 +57,7 @@ func VerifyAndCombineRawTransaction(emptyTrans, signature, publicKey string, isT
 	if owcrypt.SUCCESS != owcrypt.Verify(pub, nil, hash, sig[:64], owcrypt.ECC_CURVE_SECP256K1) {
 		return false, ""
 	}
-	if len(txBytes) < 57 {
-		head := getHeadBytes(SmallTag, LargeTag, uint64(len(txBytes)-1))
-		if head[0] != txBytes[0] {
-			return false, ""
-		}
-	} else {
-		//
-	}
-	tx, err := decodeEmpty(txBytes[1:])
+	tx, err := decodeEmpty(txBytes[headLength:])
 	if err != nil {
 		return false, ""
 	}
diff --git a/moacchainTransaction/txStruct.go b/moacchainTransaction/txStruct.go
index 1d3052b..3d2458a 100644
--- a/moacchainTransaction/txStruct.go
+++ b/moacchainTransaction/txStruct.go
@@ -76,104 +76,37 @@ func (tx *TxStruct) ToBytes() []byte {
 	return append(head, body...)
 }
 
-func decodeEmpty(txBytes []byte) (*TxStruct, error) {
-	var tx TxStruct
-	limit := len(txBytes)
-	index := 0
-
-	if index+1 > limit {
-		return nil, errors.New("Invalid!")
-	}
-	if txBytes[index] <= 0x80 {
-		tx.Nonce = txBytes[index : index+1]
-		index++
-	} else {
-		if index+1+int(txBytes[index])-0x80 > limit {
-			return nil, errors.New("Invalid!")
-		}
-		tx.Nonce = txBytes[index : index+1+int(txBytes[index])-0x80]
-		index += (1 + int(txBytes[index]) - 0x80)
+//readItem reads one item of the list, and returns its bytes and the index behind them
+func readItem(txBytes []byte, index int) ([]byte, int, error) {
+	if index >= len(txBytes) || txBytes[index] > 0x80+55 {
+		return nil, 0, errors.New("Invalid!")
 	}
-
-	if index+1 > limit || txBytes[index] < 0x80 {
-		return nil, errors.New("Invalid!")
+	next := index + 1
+	if txBytes[index] > 0x80 {
+		next += int(txBytes[index]) - 0x80
 	}
-	if index+1+int(txBytes[index])-0x80 > limit {
-		return nil, errors.New("Invalid!")
+	if next > len(txBytes) {
+		return nil, 0, errors.New("Invalid!")
 	}
-	tx.SystemContract = txBytes[index : index+1+int(txBytes[index])-0x80]
-	index += (1 + int(txBytes[index]) - 0x80)
-
-	if index+1 > limit || txBytes[index] < 0x80 {
-		return nil, errors.New("Invalid!")
+	if txBytes[index] == 0x81 && txBytes[index+1] < 0x80 {
+		return nil, 0, errors.New("Invalid!")
 	}
-	if index+1+int(txBytes[index])-0x80 > limit {
-		return nil, errors.New("Invalid!")
-	}
-	tx.GasPrice = txBytes[index : index+1+int(txBytes[index])-0x80]
-	index += (1 + int(txBytes[index]) - 0x80)
-
-	if index+1 > limit || txBytes[index] < 0x80 {
-		return nil, errors.New("Invalid!")
-	}
-	if index+1+int(txBytes[index])-0x80 > limit {
-		return nil, errors.New("Invalid!")
-	}
-	tx.GasLimit = txBytes[index : index+1+int(txBytes[index])-0x80]
-	index += (1 + int(txBytes[index]) - 0x80)
-
-	if index+1 > limit || txBytes[index] < 0x80 {
-		return nil, errors.New("Invalid!")
-	}
-	if index+1+int(txBytes[index])-0x80 > limit {
-		return nil, errors.New("Invalid!")
-	}
-	tx.Recipient = txBytes[index : index+1+int(txBytes[index])-0x80]
-	index += (1 + int(txBytes[index]) - 0x80)
-
-	if index+1 > limit || txBytes[index] < 0x80 {
-		return nil, errors.New("Invalid!")
-	}
-	if index+1+int(txBytes[index])-0x80 > limit {
-		return nil, errors.New("Invalid!")
-	}
-	tx.Amount = txBytes[index : index+1+int(txBytes[index])-0x80]
-	index += (1 + int(txBytes[index]) - 0x80)
-
-	if index+1 > limit || txBytes[index] < 0x80 {
-		return nil, errors.New("Invalid!")
-	}
-	if index+1+int(txBytes[index])-0x80 > limit {
-		return nil, errors.New("Invalid!")
-	}
-	tx.Payload = txBytes[index : index+1+int(txBytes[index])-0x80]
-	index += (1 + int(txBytes[index]) - 0x80)
-
-	if index+1 > limit || txBytes[index] < 0x80 {
-		return nil, errors.New("Invalid!")
-	}
-	if index+1+int(txBytes[index])-0x80 > limit {
-		return nil, errors.New("Invalid!")
-	}
-	tx.ShardingFlag = txBytes[index : index+1+int(txBytes[index])-0x80]
-	index += (1 + int(txBytes[index]) - 0x80)
+	return txBytes[index:next], next, nil
+}
 
-	if index+1 > limit || txBytes[index] < 0x80 {
-		return nil, errors.New("Invalid!")
-	}
-	if index+1+int(txBytes[index])-0x80 > limit {
-		return nil, errors.New("Invalid!")
-	}
-	tx.Via = txBytes[index : index+1+int(txBytes[index])-0x80]
-	index += (1 + int(txBytes[index]) - 0x80)
+func decodeEmpty(txBytes []byte) (*TxStruct, error) {
+	var tx TxStruct
+	limit := len(txBytes)
+	index := 0
+	var err error
 
-	if index+1 > limit {
-		return nil, errors.New("Invalid!")
+	for _, item := range []*[]byte{&tx.Nonce, &tx.SystemContract, &tx.GasPrice, &tx.GasLimit, &tx.Recipient, &tx.Amount, &tx.Payload, &tx.ShardingFlag, &tx.Via, &tx.ChainID} {
+		*item, index, err = readItem(txBytes, index)
+		if err != nil {
+			return nil, err
+		}
 	}
 
-	tx.ChainID = txBytes[index : index+1]
-	index += 1
-
 	if index+2 != limit || txBytes[index] != 0x80 || txBytes[index+1] != 0x80 {
 		return nil, errors.New("Invalid!")
 	}
diff --git a/moacchainTransaction/txUtils.go b/moacchainTransaction/txUtils.go
index 7865861..c2673e8 100644
--- a/moacchainTransaction/txUtils.go
+++ b/moacchainTransaction/txUtils.go
@@ -34,6 +34,9 @@ func getUint64Bytes(data uint64) []byte {
 
 func getBigIntBytes(data *big.Int) []byte {
 	ret := data.Bytes()
+	if len(ret) == 1 && ret[0] < 0x80 {
+		return ret
+	}
 
 	return append(getLengthBytes(len(ret)), ret...)
 }
-- 
2.43.0


From 972d455ddee6dc7bd34b233fb78b686c67b1504a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:10 +0000
Subject: [PATCH 039/106] fix: moac combine refuses a transaction built for the
 other network

---
 moacchainTransaction/transaction.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/moacchainTransaction/transaction.go b/moacchainTransaction/transaction.go
index b8943e9..2106068 100644
--- a/moacchainTransaction/transaction.go
+++ b/moacchainTransaction/transaction.go
@@ -61,6 +61,13 @@ func VerifyAndCombineRawTransaction(emptyTrans, signature, publicKey string, isT
 	if err != nil {
 		return false, ""
 	}
+	chainID := ChainIDMainnet
+	if isTestNet {
+		chainID = ChainIDTestnet
+	}
+	if !bytes.Equal(tx.ChainID, []byte{chainID}) {
+		return false, ""
+	}
 	tx.addSig(sig, isTestNet)
 
 	return true, "0x" + hex.EncodeToString(tx.ToBytes())
-- 
2.43.0


From 5fe3ea9cf9e8795173a7a49a45316f1f0d62092c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:11 +0000
Subject: [PATCH 040/106] fix: moac refuses amounts and addresses it cannot
 encode instead of panicking

---
 moacchainTransaction/txStruct.go | 5 +++++
 moacchainTransaction/txUtils.go  | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/moacchainTransaction/txStruct.go b/moacchainTransaction/txStruct.go
index 3d2458a..a332bf7 100644
--- a/moacchainTransaction/txStruct.go
+++ b/moacchainTransaction/txStruct.go
@@ -23,6 +23,11 @@ type TxStruct struct {
 
 func NewTxStruct(to string, nonce uint64, amount, gasLimit, gasPrice *big.Int, signature []byte, isTestNet bool) (*TxStruct, error) {
 	var tx TxStruct
+	for _, data := range []*big.Int{amount, gasLimit, gasPrice} {
+		if data == nil || data.Sign() < 0 || data.BitLen() > 256 {
+			return nil, errors.New("Invalid amount or gas!")
+		}
+	}
 	tx.Nonce = getUint64Bytes(nonce)
 	tx.SystemContract = getUint64Bytes(0) // not contract
 	tx.GasPrice = getBigIntBytes(gasPrice)
diff --git a/moacchainTransaction/txUtils.go b/moacchainTransaction/txUtils.go
index c2673e8..4464d95 100644
--- a/moacchainTransaction/txUtils.go
+++ b/moacchainTransaction/txUtils.go
@@ -109,7 +109,7 @@ func putint(b []byte, i uint64) (size int) {
 }
 
 func getAddressHashBytes(address string) ([]byte, error) {
-	if address[:2] != "0x" {
+	if len(address) < 2 || address[:2] != "0x" {
 		return nil, errors.New("Invalid address!")
 	}
 	hash, err := hex.DecodeString(address[2:])
-- 
2.43.0


From f108814fc12d7bf88079cff44962bbf4b9e8c8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:39 +0000
Subject: [PATCH 041/106] fix: cosmos and evaio accept a fee without coins and
 leave the caller's fee alone

---
 cosmosTransaction/txStruct.go | 7 ++++---
 evaioTransaction/txStruct.go  | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/cosmosTransaction/txStruct.go b/cosmosTransaction/txStruct.go
index 85e803a..59ec76e 100644
--- a/cosmosTransaction/txStruct.go
+++ b/cosmosTransaction/txStruct.go
@@ -12,13 +12,14 @@ type TxStruct struct {
 }
 
 func NewTxStruct(chainID, memo string, accountNumber, sequence int, fee *FeeStruct, message []Message) TxStruct {
-	if fee.Amount[0].Amount == "" {
-		fee.Amount = Coins{}
+	txFee := *fee
+	if len(txFee.Amount) == 0 || txFee.Amount[0].Amount == "" {
+		txFee.Amount = Coins{}
 	}
 	return TxStruct{
 		AccountNumber: strconv.FormatInt(int64(accountNumber), 10),
 		ChainID:       chainID,
-		Fee:           *fee,
+		Fee:           txFee,
 		Memo:          memo,
 		Message:       message,
 		Sequence:      strconv.FormatInt(int64(sequence), 10),
diff --git a/evaioTransaction/txStruct.go b/evaioTransaction/txStruct.go
index 7cbfcae..173eaaa 100644
--- a/evaioTransaction/txStruct.go
+++ b/evaioTransaction/txStruct.go
@@ -12,13 +12,14 @@ type TxStruct struct {
 }
 
 func NewTxStruct(chainID, memo string, accountNumber, sequence int, fee *FeeStruct, message []Message) TxStruct {
-	if fee.Amount[0].Amount == "" {
-		fee.Amount = Coins{}
+	txFee := *fee
+	if len(txFee.Amount) == 0 || txFee.Amount[0].Amount == "" {
+		txFee.Amount = Coins{}
 	}
 	return TxStruct{
 		AccountNumber: strconv.FormatInt(int64(accountNumber), 10),
 		ChainID:       chainID,
-		Fee:           *fee,
+		Fee:           txFee,
 		Memo:          memo,
 		Message:       message,
 		Sequence:      strconv.FormatInt(int64(sequence), 10),
-- 
2.43.0


From 16969bbd1c7cf5ceb429e299175e611373bab8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:39 +0000
Subject: [PATCH 042/106] fix: cosmos and evaio report a failed signature
 instead of panicking

---
 cosmosTransaction/transaction.go | 3 +--
 evaioTransaction/transaction.go  | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/cosmosTransaction/transaction.go b/cosmosTransaction/transaction.go
index e320dfb..44a76c5 100644
--- a/cosmosTransaction/transaction.go
+++ b/cosmosTransaction/transaction.go
@@ -56,11 +56,10 @@ func SignTransactionHash(txHash string, prikey []byte) (string, error) {
 	}
 
 	sig,_, ret := owcrypt.Signature(prikey, nil, hash, owcrypt.ECC_CURVE_SECP256K1)
-	sig = serilizeS(sig)
-
 	if ret != owcrypt.SUCCESS {
 		return "", errors.New("Signature failed!")
 	}
+	sig = serilizeS(sig)
 
 	return hex.EncodeToString(sig), nil
 }
diff --git a/evaioTransaction/transaction.go b/evaioTransaction/transaction.go
index 073f867..b06bbe3 100644
--- a/evaioTransaction/transaction.go
+++ b/evaioTransaction/transaction.go
@@ -56,11 +56,10 @@ func SignTransactionHash(txHash string, prikey []byte) (string, error) {
 	}
 
 	sig,_, ret := owcrypt.Signature(prikey, nil, hash, owcrypt.ECC_CURVE_SECP256K1)
-	sig = serilizeS(sig)
-
 	if ret != owcrypt.SUCCESS {
 		return "", errors.New("Signature failed!")
 	}
+	sig = serilizeS(sig)
 
 	return hex.EncodeToString(sig), nil
 }
-- 
2.43.0


From 739d0846a57e62d1f32ba686bd8316f6f356028b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:39 +0000
Subject: [PATCH 043/106] fix: vsys refuses attachments and recipients it
 cannot encode instead of building an unusable transaction

---
 virtualeconomyTransaction/transaction.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/virtualeconomyTransaction/transaction.go b/virtualeconomyTransaction/transaction.go
index fb0cf1b..de810ed 100644
--- a/virtualeconomyTransaction/transaction.go
+++ b/virtualeconomyTransaction/transaction.go
@@ -44,13 +44,14 @@ func CreateEmptyTransaction(ts TxStruct) (string, error) {
 	binary.BigEndian.PutUint16(feeScale, ts.FeeScale)
 	txBytes = append(txBytes, feeScale...)
 	recipient, err := DecodeCheck(ts.To)
-	if err != nil {
+	if err != nil || len(recipient) != 26 {
 		return "", errors.New("Trying to send VSYS to an invalid address!")
 	}
 	txBytes = append(txBytes, recipient...)
-	if ts.Attachment == "" {
-		txBytes = append(txBytes, attachmentLen...)
+	if ts.Attachment != "" {
+		return "", errors.New("Non-empty attachment is not supported yet!")
 	}
+	txBytes = append(txBytes, attachmentLen...)
 
 	return hex.EncodeToString(txBytes), nil
 }
-- 
2.43.0


From 85a7810c56a29c60cbb2231dabbf4e855ac73e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:39 +0000
Subject: [PATCH 044/106] fix: vsys refuses a missing signature instead of
 panicking

---
 virtualeconomyTransaction/transaction.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/virtualeconomyTransaction/transaction.go b/virtualeconomyTransaction/transaction.go
index de810ed..334319d 100644
--- a/virtualeconomyTransaction/transaction.go
+++ b/virtualeconomyTransaction/transaction.go
@@ -84,7 +84,7 @@ func SignTransaction(emptyTrans string, prikey []byte) (*SignaturePubkey, error)
 // 对签名结果进行验证
 func VerifyTransaction(emptyTrans string, sp *SignaturePubkey) bool {
 	txBytes, err := hex.DecodeString(emptyTrans)
-	if err != nil {
+	if err != nil || sp == nil {
 		return false
 	}
 
@@ -108,6 +108,10 @@ func CreateJSONRawForSendTransaction(emptyTrans string, sp *SignaturePubkey) (*g
 		return nil, errors.New("Invalid transaction hex string!")
 	}
 
+	if sp == nil {
+		return nil, errors.New("Missing signature!")
+	}
+
 	ts, timestamp, err := TxStructDecode(txBytes)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From c12e257ddabb9437d1fc881405af377c96f1e2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:20 +0000
Subject: [PATCH 045/106] fix: binance chain refuses an amount its document
 would round instead of sending another amount

---
 binancechainTransaction/transaction.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/binancechainTransaction/transaction.go b/binancechainTransaction/transaction.go
index 9261f58..fc21b7f 100644
--- a/binancechainTransaction/transaction.go
+++ b/binancechainTransaction/transaction.go
@@ -7,9 +7,14 @@ import (
 	"github.com/binance-chain/go-sdk/types/msg"
 	"github.com/binance-chain/go-sdk/types/tx"
 	"github.com/blocktree/go-owcrypt"
+	"strconv"
 )
 
 func CreateEmptyTransactionAndHash(from , to, denom string, amount, accountNumber, sequence, source int64, memo string) (string, string, error) {
+	// the document to sign holds the amount as a JSON number, which goes through float64
+	if strconv.FormatFloat(float64(amount), 'f', -1, 64) != strconv.FormatInt(amount, 10) {
+		return "", "", errors.New("The amount does not fit the document to sign!")
+	}
 	sendMsg, err := CreateSendMsg(from, to, denom, amount)
 	if err != nil {
 		return "", "", err
-- 
2.43.0


From 3db91c5cc638299338d779cb910e2ec9dc3e3872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:59 +0000
Subject: [PATCH 046/106] fix: owkeychain: refuse public children beyond the
 maximum depth

---
 owkeychain/extendedkey.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/owkeychain/extendedkey.go b/owkeychain/extendedkey.go
index 2c9f8d7..4bcd7b3 100644
--- a/owkeychain/extendedkey.go
+++ b/owkeychain/extendedkey.go
@@ -248,6 +248,10 @@ func (k *ExtendedKey) GenPublicChild(serializes uint32) (*ExtendedKey, error) {
 	if typeChoose == owcrypt.ECC_CURVE_X25519 || typeChoose == owcrypt.ECC_CURVE_CURVE25519_SHA256 {
 		typeChoose = owcrypt.ECC_CURVE_ED25519
 	}
+	//越过最大深度限制
+	if k.depth == maxUint8 {
+		return nil, ErrDeriveBeyondMaxDepth
+	}
 	if !k.isPrivate {
 		if serializes >= HardenedKeyStart { //不能从父公钥强化扩展
 			return nil, ErrDeriveHardFromPublic
-- 
2.43.0


From dc36942bbdcde5fda6dc96ae54d0fc01fc0bc4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:59 +0000
Subject: [PATCH 047/106] fix: owkeychain: refuse derivation path indexes that
 do not fit

---
 owkeychain/hdkey.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/owkeychain/hdkey.go b/owkeychain/hdkey.go
index e6ab4d1..873c0fc 100644
--- a/owkeychain/hdkey.go
+++ b/owkeychain/hdkey.go
@@ -2,6 +2,7 @@ package owkeychain
 
 import (
 	"errors"
+	"math"
 	"strconv"
 	"strings"
 
@@ -44,13 +45,13 @@ func DerivedPrivateKeyWithPath(seed []byte, derivedPath string, curveType uint32
 		if strings.Index(elem, "'") == len(elem)-1 {
 			elem = elem[0 : len(elem)-1]
 			index, err := strconv.Atoi(elem)
-			if err != nil {
+			if err != nil || index < 0 || int64(index) >= int64(HardenedKeyStart) {
 				return nil, ErrInvalidDerivedPath
 			}
 			hdSerializes = uint32(index) + HardenedKeyStart
 		} else {
 			index, err := strconv.Atoi(elem)
-			if err != nil {
+			if err != nil || index < 0 || int64(index) > math.MaxUint32 {
 				return nil, ErrInvalidDerivedPath
 			}
 			hdSerializes = uint32(index)
@@ -111,13 +112,13 @@ func (k *ExtendedKey) DerivedPublicKeyFromPath(derivedPath string) (*ExtendedKey
 		if strings.Index(elem, "'") == len(elem)-1 {
 			elem = elem[0 : len(elem)-1]
 			index, err := strconv.Atoi(elem)
-			if err != nil {
+			if err != nil || index < 0 || int64(index) >= int64(HardenedKeyStart) {
 				return nil, ErrInvalidDerivedPath
 			}
 			hdSerializes = uint32(index) + HardenedKeyStart
 		} else {
 			index, err := strconv.Atoi(elem)
-			if err != nil {
+			if err != nil || index < 0 || int64(index) > math.MaxUint32 {
 				return nil, ErrInvalidDerivedPath
 			}
 			hdSerializes = uint32(index)
-- 
2.43.0


From a1af3d16b1fc0880fc3872d3bc96131ae09fb6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:59 +0000
Subject: [PATCH 048/106] fix: owkeychain: refuse encoded keys that are too
 short instead of panicking

---
 owkeychain/owencode.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/owkeychain/owencode.go b/owkeychain/owencode.go
index cdab5af..3c9ff4c 100644
--- a/owkeychain/owencode.go
+++ b/owkeychain/owencode.go
@@ -35,6 +35,9 @@ func Base58checkDecode(address string, fix []byte) ([]byte, error) {
 	if err != nil {
 		return nil, ErrInvalidAddress
 	}
+	if len(decodeBytes) < len(fix)+4 {
+		return nil, ErrInvalidAddress
+	}
 	for i := 0; i < len(fix); i++ {
 		if fix[i] != decodeBytes[i] {
 			return nil, ErrInvalidAddress
@@ -107,6 +110,9 @@ func OWDecode(data string) (*ExtendedKey, error) {
 			}
 		}
 	}
+	if len(decodeBytes) < 78 {
+		return nil, ErrInvalidAddress
+	}
 	curveType := bytesToUInt32(decodeBytes[:4])
 	depth := decodeBytes[4]
 	parentFP := decodeBytes[5:9]
-- 
2.43.0


From 89cc78467a67ce0547f542d513cbf5fa053efba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:59 +0000
Subject: [PATCH 049/106] fix: owkeychain: Base58checkEncode does not write
 behind the prefix it was given

---
 owkeychain/owencode.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/owkeychain/owencode.go b/owkeychain/owencode.go
index 3c9ff4c..eb44d49 100644
--- a/owkeychain/owencode.go
+++ b/owkeychain/owencode.go
@@ -23,7 +23,8 @@ func Base58checkEncode(data []byte, fix []byte) string {
 	hash = ctx.Sum(nil)
 
 	fix_value := []byte{}
-	fix_value = append(fix, data...)
+	fix_value = append(fix_value, fix...)
+	fix_value = append(fix_value, data...)
 	fix_value = append(fix_value, hash[:4]...)
 
 	return Encode(fix_value[:], BitcoinAlphabet)
-- 
2.43.0


From 213976e8086d85d9a57110919198bfc30b6f0ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:59 +0000
Subject: [PATCH 050/106] fix: owkeychain: refuse to share keys whose share
 could not be decoded

---
 owkeychain/multisig.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/owkeychain/multisig.go b/owkeychain/multisig.go
index 2b7d9bb..9797d8f 100644
--- a/owkeychain/multisig.go
+++ b/owkeychain/multisig.go
@@ -67,6 +67,10 @@ func GetMultiSigShareData(owpub string) (string, error) {
 		pubParent = pubParent.GetPublicKey()
 	}
 
+	if len(pubParent.key) != 32 && len(pubParent.key) != 33 {
+		return "", errors.New("the public key does not fit into owchain encoded data!")
+	}
+
 	var ms MultiSigShare
 
 	ms.Pubkey = pubParent.key
-- 
2.43.0


From 126378add16fa051ceb3fe9e1f53e42a90aa3f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:59 +0000
Subject: [PATCH 051/106] fix: owkeychain: a public key that is not on its
 curve does not panic

---
 owkeychain/extendedkey.go | 3 +++
 owkeychain/hdkey.go       | 6 +++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/owkeychain/extendedkey.go b/owkeychain/extendedkey.go
index 4bcd7b3..23b95bc 100644
--- a/owkeychain/extendedkey.go
+++ b/owkeychain/extendedkey.go
@@ -183,6 +183,9 @@ func getPubChildViaPubParent(il, pubkey []byte, typeChoose uint32) ([]byte, erro
 		return point, nil
 	}
 	parentPubPoint := owcrypt.PointDecompress(pubkey, typeChoose)
+	if len(parentPubPoint) == 0 {
+		return nil, ErrInvalidChild
+	}
 	point, isinfinity := owcrypt.Point_mulBaseG_add(parentPubPoint[1:], il, typeChoose)
 	if isinfinity {
 		return nil, ErrInvalidChild
diff --git a/owkeychain/hdkey.go b/owkeychain/hdkey.go
index 873c0fc..ff58e4e 100644
--- a/owkeychain/hdkey.go
+++ b/owkeychain/hdkey.go
@@ -160,7 +160,11 @@ func (k *ExtendedKey) GetUncompressedPublicKeyBytes() []byte {
 		pubkey = k.key
 	}
 
-	return owcrypt.PointDecompress(pubkey, k.curveType)[1:]
+	point := owcrypt.PointDecompress(pubkey, k.curveType)
+	if len(point) == 0 {
+		return nil
+	}
+	return point[1:]
 }
 
 //GePublicKey 获取公钥结构体
-- 
2.43.0


From 9ca045c5e70a6f5d5c3c5bcfcf6a5524f18df02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:58 +0000
Subject: [PATCH 052/106] fix: addressEncoder: bech32m reports an address of
 another prefix as an error

---
 addressEncoder/bech32m/bech32m.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/addressEncoder/bech32m/bech32m.go b/addressEncoder/bech32m/bech32m.go
index e4d2d83..e7d3669 100644
--- a/addressEncoder/bech32m/bech32m.go
+++ b/addressEncoder/bech32m/bech32m.go
@@ -171,9 +171,12 @@ func Bech32mEncode(prefix string, data []byte, charset string) (string, error) {
 
 func Bech32mDecode(address, prefix string, charset string) ([]byte, error) {
 	prechk, data, spec, err := Decode(address, charset)
-	if err != nil || prechk != prefix || spec != Bech32m {
+	if err != nil {
 		return nil, err
 	}
+	if prechk != prefix || spec != Bech32m {
+		return nil, fmt.Errorf("Invalid prefix or checksum type")
+	}
 
 	hash, err := Convertbits(data, 5, 8, false)
 	if err != nil {
-- 
2.43.0


From 41ce1fe06e085329076c50cc687ea7e5b827763d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:58 +0000
Subject: [PATCH 053/106] fix: addressEncoder: refuse bech32 addresses of
 another chain

---
 addressEncoder/addressEncoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/addressEncoder/addressEncoder.go b/addressEncoder/addressEncoder.go
index 8f279da..3dbffcd 100644
--- a/addressEncoder/addressEncoder.go
+++ b/addressEncoder/addressEncoder.go
@@ -255,7 +255,7 @@ func AddressDecode(address string, addresstype AddressType) ([]byte, error) {
 
 	if addresstype.EncodeType == "bech32" {
 		ret, err := bech32.Decode(address, addresstype.Alphabet)
-		if err != nil {
+		if err != nil || !strings.HasPrefix(strings.ToLower(address), addresstype.ChecksumType+"1") {
 			return nil, ErrorInvalidAddress
 		}
 		if len(ret) != 20 && len(ret) != 32 {
-- 
2.43.0


From 545559828a8d5a7aa8f85b7e5679d2d442b323f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:58 +0000
Subject: [PATCH 054/106] fix: addressEncoder: cash addresses are always
 checked against their checksum

---
 addressEncoder/base32PolyMod/base32PolyMod.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/addressEncoder/base32PolyMod/base32PolyMod.go b/addressEncoder/base32PolyMod/base32PolyMod.go
index ffa3e92..cb691af 100644
--- a/addressEncoder/base32PolyMod/base32PolyMod.go
+++ b/addressEncoder/base32PolyMod/base32PolyMod.go
@@ -210,10 +210,8 @@ func Decode(address, alphabet string) ([]byte, error) {
 		value[i] = charRev[c]
 	}
 
-	if prefixStr == "bitcoincash" {
-		if !verifyChecksum(bitcoincashExpandPrefix, value) {
-			return nil, ErrorInvalidAddress
-		}
+	if strings.ToLower(prefixStr) != "bitcoincash" || !verifyChecksum(bitcoincashExpandPrefix, value) {
+		return nil, ErrorInvalidAddress
 	}
 
 	tmp := make([]int8, len(value)-8)
-- 
2.43.0


From 76d10595151f48bd0467b283e87a3f5846aa7e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:58 +0000
Subject: [PATCH 055/106] fix: addressEncoder: refuse addresses that are too
 short instead of panicking

---
 addressEncoder/addressCheck.go                | 4 ++++
 addressEncoder/addressEncoder.go              | 5 ++++-
 addressEncoder/base32PolyMod/base32PolyMod.go | 3 +++
 addressEncoder/bech32/bech32.go               | 3 +++
 addressEncoder/eip55/eip55.go                 | 2 +-
 5 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/addressEncoder/addressCheck.go b/addressEncoder/addressCheck.go
index e660d61..e98f67d 100644
--- a/addressEncoder/addressCheck.go
+++ b/addressEncoder/addressCheck.go
@@ -18,6 +18,10 @@ notice:
 */
 func AddressCheck(addr string, symbol string) (bool, error) {
 	var err error
+	//every address is longer than the prefixes looked at below
+	if len(addr) < 12 {
+		return false, ErrorInvalidAddress
+	}
 	switch symbol {
 	case "BTC":
 		if addr[0] == '1' {
diff --git a/addressEncoder/addressEncoder.go b/addressEncoder/addressEncoder.go
index 3dbffcd..962119d 100644
--- a/addressEncoder/addressEncoder.go
+++ b/addressEncoder/addressEncoder.go
@@ -77,6 +77,9 @@ func catData(data1 []byte, data2 []byte) []byte {
 }
 
 func recoverData(data, prefix, suffix []byte) ([]byte, error) {
+	if len(data) < len(prefix)+len(suffix) {
+		return nil, ErrorInvalidAddress
+	}
 	for i := 0; i < len(prefix); i++ {
 		if data[i] != prefix[i] {
 			return nil, ErrorInvalidAddress
@@ -284,7 +287,7 @@ func AddressDecode(address string, addresstype AddressType) ([]byte, error) {
 		return ret, nil
 	}
 	if addresstype.EncodeType == "ICX" {
-		if address[0] != 'h' || address[1] != 'x' {
+		if len(address) < 2 || address[0] != 'h' || address[1] != 'x' {
 			return nil, ErrorInvalidAddress
 		} else {
 			if len(address)-2 != 40 {
diff --git a/addressEncoder/base32PolyMod/base32PolyMod.go b/addressEncoder/base32PolyMod/base32PolyMod.go
index cb691af..f8cf69a 100644
--- a/addressEncoder/base32PolyMod/base32PolyMod.go
+++ b/addressEncoder/base32PolyMod/base32PolyMod.go
@@ -201,6 +201,9 @@ func Decode(address, alphabet string) ([]byte, error) {
 	prefixStr := strings.Split(address, ":")[0]
 	prefixSize++
 	valueSize := len(address) - prefixSize
+	if valueSize < 10 {
+		return nil, ErrorInvalidAddress
+	}
 	value := make([]int8, valueSize)
 	for i := 0; i < valueSize; i++ {
 		c := address[i+prefixSize]
diff --git a/addressEncoder/bech32/bech32.go b/addressEncoder/bech32/bech32.go
index cb0bcd6..161079b 100644
--- a/addressEncoder/bech32/bech32.go
+++ b/addressEncoder/bech32/bech32.go
@@ -386,6 +386,9 @@ func Decode(address, alphabet string) ([]byte, error) {
 	prefixStr := strings.Split(address, "1")[0]
 	prefixSize++
 	valueSize := len(address) - prefixSize
+	if valueSize < 8 {
+		return nil, ErrorInvalidAddress
+	}
 	value := make([]int8, valueSize)
 	for i := 0; i < valueSize; i++ {
 		c := address[i+prefixSize]
diff --git a/addressEncoder/eip55/eip55.go b/addressEncoder/eip55/eip55.go
index 8727322..eed4331 100644
--- a/addressEncoder/eip55/eip55.go
+++ b/addressEncoder/eip55/eip55.go
@@ -92,7 +92,7 @@ func Eip55_decode(encode_addr string)([]byte,error){
 		return nil,ErrorInvalidAddress
 	}
 	*/
-	if encode_addr[0:2] == "0x" {
+	if len(encode_addr) >= 2 && encode_addr[0:2] == "0x" {
 		encode_addr = encode_addr[2:]
 	}
 	decode_addr,err :=hex.DecodeString(encode_addr)
-- 
2.43.0


From 6e549da56c7a14914de7358df467fce01cfa44ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:58 +0000
Subject: [PATCH 056/106] fix: addressEncoder: encoding does not write behind
 the buffers it was given

---
 addressEncoder/addressEncoder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/addressEncoder/addressEncoder.go b/addressEncoder/addressEncoder.go
index 962119d..62d804b 100644
--- a/addressEncoder/addressEncoder.go
+++ b/addressEncoder/addressEncoder.go
@@ -73,7 +73,7 @@ func catData(data1 []byte, data2 []byte) []byte {
 	if data2 == nil {
 		return data1
 	}
-	return append(data1, data2...)
+	return append(append(make([]byte, 0, len(data1)+len(data2)), data1...), data2...)
 }
 
 func recoverData(data, prefix, suffix []byte) ([]byte, error) {
@@ -203,7 +203,7 @@ func AddressEncode(hash []byte, addresstype AddressType) string {
 			}
 		}
 		//addPrefixHash = Prefix||hash=prxfix || public sepend key||public view key(65-byte)
-		addPrefixHash := append(addresstype.Prefix, hash...)
+		addPrefixHash := catData(addresstype.Prefix, hash)
 		//checksum is the first four bytes of keccak256(addPrefixHash)
 		checksum := owcrypt.Hash(addPrefixHash, 32, owcrypt.HASH_ALG_KECCAK256)[:4]
 		//Suffix checksum addPrefixHash(69-byte)
-- 
2.43.0


From 9bd3db835b37a90efa101f18e1ff74f9b053dda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:04 +0000
Subject: [PATCH 057/106] fix: addressEncoder: base64 encodings keep their
 alphabet

---
 addressEncoder/base64.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/addressEncoder/base64.go b/addressEncoder/base64.go
index e82554f..af4e3fc 100644
--- a/addressEncoder/base64.go
+++ b/addressEncoder/base64.go
@@ -31,7 +31,7 @@ func NewEncoding(encoder string) *Encoding {
 
 	e := new(Encoding)
 	e.padChar = StdPadding
-	copy(e.encode[:], encoder)
+	e.encode = []byte(encoder)
 
 	for i := 0; i < len(e.decodeMap); i++ {
 		e.decodeMap[i] = 0xFF
-- 
2.43.0


From f72ba1190bd8d5f1d972bdea768a8b1e6db51244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:27 +0000
Subject: [PATCH 058/106] fix: addressEncoder: NAS contract addresses that
 start with n1 are valid

---
 addressEncoder/addressCheck.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/addressEncoder/addressCheck.go b/addressEncoder/addressCheck.go
index e98f67d..2d35983 100644
--- a/addressEncoder/addressCheck.go
+++ b/addressEncoder/addressCheck.go
@@ -408,6 +408,10 @@ func AddressCheck(addr string, symbol string) (bool, error) {
 	case "NAS":
 		if addr[0] == 'n' && addr[1] == '1' {
 			_, err = AddressDecode(addr, NAS_AccountAddress)
+			if err != nil {
+				//most contract addresses start with n1 as well
+				_, err = AddressDecode(addr, NAS_SmartContractAddress)
+			}
 			if err == nil {
 				return true, err
 			} else {
-- 
2.43.0


From e3de9e4b8f075bf8ca0a10edf83e532d0264ec16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:48 +0000
Subject: [PATCH 059/106] fix: Bech32Decode refuses texts without a prefix, a
 payload or a checksum

---
 btcLikeTxDriver/bech32.go    | 9 +++++++++
 btcTransaction/bech32.go     | 9 +++++++++
 cosmosTransaction/bech32.go  | 9 +++++++++
 cxcTransaction/bech32.go     | 9 +++++++++
 evaioTransaction/bech32.go   | 9 +++++++++
 hcTransaction/bech32.go      | 9 +++++++++
 omniTransaction/bech32.go    | 9 +++++++++
 zencashTransaction/bech32.go | 9 +++++++++
 8 files changed, 72 insertions(+)

diff --git a/btcLikeTxDriver/bech32.go b/btcLikeTxDriver/bech32.go
index 828b11c..1e138c0 100644
--- a/btcLikeTxDriver/bech32.go
+++ b/btcLikeTxDriver/bech32.go
@@ -188,6 +188,10 @@ func Bech32Decode(address string) ([]byte, error) {
 		return nil, ErrorInvalidAddress
 	}
 
+	if prefixSize == 0 {
+		return nil, ErrorInvalidAddress
+	}
+
 	prefixStr := strings.Split(address, "1")[0]
 	prefixSize++
 	valueSize := len(address) - prefixSize
@@ -200,6 +204,11 @@ func Bech32Decode(address string) ([]byte, error) {
 		value[i] = CHARSET_REV[c]
 	}
 
+	//the value is the witness version, the payload and six characters of checksum
+	if len(value) < 9 {
+		return nil, ErrorInvalidAddress
+	}
+
 	if !verifyChecksum(prefixStr, value) {
 		return nil, ErrorInvalidAddress
 	}
diff --git a/btcTransaction/bech32.go b/btcTransaction/bech32.go
index 61bcae7..fef7e78 100644
--- a/btcTransaction/bech32.go
+++ b/btcTransaction/bech32.go
@@ -189,6 +189,10 @@ func Bech32Decode(address string) ([]byte, error) {
 		return nil, ErrorInvalidAddress
 	}
 
+	if prefixSize == 0 {
+		return nil, ErrorInvalidAddress
+	}
+
 	prefixStr := strings.Split(address, "1")[0]
 	prefixSize++
 	valueSize := len(address) - prefixSize
@@ -201,6 +205,11 @@ func Bech32Decode(address string) ([]byte, error) {
 		value[i] = CHARSET_REV[c]
 	}
 
+	//the value is the witness version, the payload and six characters of checksum
+	if len(value) < 9 {
+		return nil, ErrorInvalidAddress
+	}
+
 	if !verifyChecksum(prefixStr, value) {
 		return nil, ErrorInvalidAddress
 	}
diff --git a/cosmosTransaction/bech32.go b/cosmosTransaction/bech32.go
index 91d2afd..3722da5 100644
--- a/cosmosTransaction/bech32.go
+++ b/cosmosTransaction/bech32.go
@@ -189,6 +189,10 @@ func Bech32Decode(address string) ([]byte, error) {
 		return nil, ErrorInvalidAddress
 	}
 
+	if prefixSize == 0 {
+		return nil, ErrorInvalidAddress
+	}
+
 	prefixStr := strings.Split(address, "1")[0]
 	prefixSize++
 	valueSize := len(address) - prefixSize
@@ -201,6 +205,11 @@ func Bech32Decode(address string) ([]byte, error) {
 		value[i] = CHARSET_REV[c]
 	}
 
+	//the value is the witness version, the payload and six characters of checksum
+	if len(value) < 9 {
+		return nil, ErrorInvalidAddress
+	}
+
 	if !verifyChecksum(prefixStr, value) {
 		return nil, ErrorInvalidAddress
 	}
diff --git a/cxcTransaction/bech32.go b/cxcTransaction/bech32.go
index 530a591..c6af026 100644
--- a/cxcTransaction/bech32.go
+++ b/cxcTransaction/bech32.go
@@ -189,6 +189,10 @@ func Bech32Decode(address string) ([]byte, error) {
 		return nil, ErrorInvalidAddress
 	}
 
+	if prefixSize == 0 {
+		return nil, ErrorInvalidAddress
+	}
+
 	prefixStr := strings.Split(address, "1")[0]
 	prefixSize++
 	valueSize := len(address) - prefixSize
@@ -201,6 +205,11 @@ func Bech32Decode(address string) ([]byte, error) {
 		value[i] = CHARSET_REV[c]
 	}
 
+	//the value is the witness version, the payload and six characters of checksum
+	if len(value) < 9 {
+		return nil, ErrorInvalidAddress
+	}
+
 	if !verifyChecksum(prefixStr, value) {
 		return nil, ErrorInvalidAddress
 	}
diff --git a/evaioTransaction/bech32.go b/evaioTransaction/bech32.go
index f594278..3e22a48 100644
--- a/evaioTransaction/bech32.go
+++ b/evaioTransaction/bech32.go
@@ -189,6 +189,10 @@ func Bech32Decode(address string) ([]byte, error) {
 		return nil, ErrorInvalidAddress
 	}
 
+	if prefixSize == 0 {
+		return nil, ErrorInvalidAddress
+	}
+
 	prefixStr := strings.Split(address, "1")[0]
 	prefixSize++
 	valueSize := len(address) - prefixSize
@@ -201,6 +205,11 @@ func Bech32Decode(address string) ([]byte, error) {
 		value[i] = CHARSET_REV[c]
 	}
 
+	//the value is the witness version, the payload and six characters of checksum
+	if len(value) < 9 {
+		return nil, ErrorInvalidAddress
+	}
+
 	if !verifyChecksum(prefixStr, value) {
 		return nil, ErrorInvalidAddress
 	}
diff --git a/hcTransaction/bech32.go b/hcTransaction/bech32.go
index b6cb6e8..8726bc8 100644
--- a/hcTransaction/bech32.go
+++ b/hcTransaction/bech32.go
@@ -189,6 +189,10 @@ func Bech32Decode(address string) ([]byte, error) {
 		return nil, ErrorInvalidAddress
 	}
 
+	if prefixSize == 0 {
+		return nil, ErrorInvalidAddress
+	}
+
 	prefixStr := strings.Split(address, "1")[0]
 	prefixSize++
 	valueSize := len(address) - prefixSize
@@ -201,6 +205,11 @@ func Bech32Decode(address string) ([]byte, error) {
 		value[i] = CHARSET_REV[c]
 	}
 
+	//the value is the witness version, the payload and six characters of checksum
+	if len(value) < 9 {
+		return nil, ErrorInvalidAddress
+	}
+
 	if !verifyChecksum(prefixStr, value) {
 		return nil, ErrorInvalidAddress
 	}
diff --git a/omniTransaction/bech32.go b/omniTransaction/bech32.go
index 640b491..0495038 100644
--- a/omniTransaction/bech32.go
+++ b/omniTransaction/bech32.go
@@ -189,6 +189,10 @@ func Bech32Decode(address string) ([]byte, error) {
 		return nil, ErrorInvalidAddress
 	}
 
+	if prefixSize == 0 {
+		return nil, ErrorInvalidAddress
+	}
+
 	prefixStr := strings.Split(address, "1")[0]
 	prefixSize++
 	valueSize := len(address) - prefixSize
@@ -201,6 +205,11 @@ func Bech32Decode(address string) ([]byte, error) {
 		value[i] = CHARSET_REV[c]
 	}
 
+	//the value is the witness version, the payload and six characters of checksum
+	if len(value) < 9 {
+		return nil, ErrorInvalidAddress
+	}
+
 	if !verifyChecksum(prefixStr, value) {
 		return nil, ErrorInvalidAddress
 	}
diff --git a/zencashTransaction/bech32.go b/zencashTransaction/bech32.go
index c11aebd..fe787c3 100644
--- a/zencashTransaction/bech32.go
+++ b/zencashTransaction/bech32.go
@@ -189,6 +189,10 @@ func Bech32Decode(address string) ([]byte, error) {
 		return nil, ErrorInvalidAddress
 	}
 
+	if prefixSize == 0 {
+		return nil, ErrorInvalidAddress
+	}
+
 	prefixStr := strings.Split(address, "1")[0]
 	prefixSize++
 	valueSize := len(address) - prefixSize
@@ -201,6 +205,11 @@ func Bech32Decode(address string) ([]byte, error) {
 		value[i] = CHARSET_REV[c]
 	}
 
+	//the value is the witness version, the payload and six characters of checksum
+	if len(value) < 9 {
+		return nil, ErrorInvalidAddress
+	}
+
 	if !verifyChecksum(prefixStr, value) {
 		return nil, ErrorInvalidAddress
 	}
-- 
2.43.0


From b9150e4c9aa579aa5263927b99736ce53fae52e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:29 +0000
Subject: [PATCH 060/106] fix: elastosTransaction: refuse public keys that are
 not points of the curve

---
 elastosTransaction/transaction.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/elastosTransaction/transaction.go b/elastosTransaction/transaction.go
index dc780d3..5c4827b 100644
--- a/elastosTransaction/transaction.go
+++ b/elastosTransaction/transaction.go
@@ -1,8 +1,10 @@
 package elastosTransaction
 
 import (
+	"crypto/elliptic"
 	"encoding/hex"
 	"errors"
+	"math/big"
 
 	owcrypt "github.com/blocktree/go-owcrypt"
 )
@@ -82,6 +84,9 @@ func VerifyAndCombineRawTransaction(emptyTrans string, sigPubs []SigPub) (bool,
 		if len(point) != 65 || len(sp.Signature) != 64 {
 			return false, ""
 		}
+		if !elliptic.P256().IsOnCurve(new(big.Int).SetBytes(point[1:33]), new(big.Int).SetBytes(point[33:])) {
+			return false, ""
+		}
 		if owcrypt.SUCCESS != owcrypt.Verify(point[1:], nil, hash, sp.Signature, owcrypt.ECC_CURVE_SECP256R1) {
 			return false, ""
 		}
-- 
2.43.0


From 34ca3348c105a360686ed84080c1ef1237866620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:29 +0000
Subject: [PATCH 061/106] fix: ontologyTransaction: refuse public keys that are
 not points of the curve

---
 ontologyTransaction/transaction.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ontologyTransaction/transaction.go b/ontologyTransaction/transaction.go
index bffa85e..5aa800a 100644
--- a/ontologyTransaction/transaction.go
+++ b/ontologyTransaction/transaction.go
@@ -1,6 +1,7 @@
 package ontologyTransaction
 
 import (
+	"crypto/elliptic"
 	"crypto/rand"
 	"encoding/hex"
 	"errors"
@@ -119,6 +120,9 @@ func VerifyAndCombineRawTransaction(emptyTrans string, sigpub []SigPub) (bool, s
 		if len(point) != 65 || len(sp.PublicKey) != 33 || len(sp.Signature) != 64 {
 			return false, "", errors.New("Invalid signature or public key!")
 		}
+		if !elliptic.P256().IsOnCurve(new(big.Int).SetBytes(point[1:33]), new(big.Int).SetBytes(point[33:])) {
+			return false, "", errors.New("Invalid signature or public key!")
+		}
 		if owcrypt.SUCCESS != owcrypt.Verify(point[1:], nil, hashBytes, sp.Signature, owcrypt.ECC_CURVE_SECP256R1) {
 			return false, "", errors.New("failed to verify transaction!")
 		}
-- 
2.43.0


From 0ff03911055074c08f47c3cd670d58547ea2d9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:29 +0000
Subject: [PATCH 062/106] fix: a signature with r or s equal to zero is
 refused, not a crash

---
 aliencoinTransaction/txSigPub.go          | 4 ++--
 bitcoincashTransaction/SignaturePubkey.go | 4 ++--
 bitcoinsvTransaction/SignaturePubkey.go   | 4 ++--
 btcLikeTxDriver/signaturepubkey.go        | 4 ++--
 btcTransaction/SignaturePubkey.go         | 4 ++--
 cxcTransaction/SignaturePubkey.go         | 4 ++--
 hcTransaction/SignaturePubkey.go          | 4 ++--
 hypercashTransaction/txSignature.go       | 4 ++--
 mateverseTransaction/txSigPub.go          | 4 ++--
 omniTransaction/SignaturePubkey.go        | 4 ++--
 rippleTransaction/txUtils.go              | 4 ++--
 vergeTransaction/txSigPub.go              | 4 ++--
 vollarTransaction/txSigPub.go             | 4 ++--
 waykichainTransaction/txSignature.go      | 4 ++--
 zencashTransaction/SignaturePubkey.go     | 4 ++--
 15 files changed, 30 insertions(+), 30 deletions(-)

diff --git a/aliencoinTransaction/txSigPub.go b/aliencoinTransaction/txSigPub.go
index a844607..3929388 100644
--- a/aliencoinTransaction/txSigPub.go
+++ b/aliencoinTransaction/txSigPub.go
@@ -60,7 +60,7 @@ func (sp SigPub) ToBytes() []byte {
 		r = append([]byte{0x00}, r...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if r[0] == 0 && r[1]&0x80 != 0x80 {
+			if len(r) > 1 && r[0] == 0 && r[1]&0x80 != 0x80 {
 				r = r[1:]
 			} else {
 				break
@@ -71,7 +71,7 @@ func (sp SigPub) ToBytes() []byte {
 		s = append([]byte{0}, s...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if s[0] == 0 && s[1]&0x80 != 0x80 {
+			if len(s) > 1 && s[0] == 0 && s[1]&0x80 != 0x80 {
 				s = s[1:]
 			} else {
 				break
diff --git a/bitcoincashTransaction/SignaturePubkey.go b/bitcoincashTransaction/SignaturePubkey.go
index bfb1ec7..8ea7bf0 100644
--- a/bitcoincashTransaction/SignaturePubkey.go
+++ b/bitcoincashTransaction/SignaturePubkey.go
@@ -57,7 +57,7 @@ func (sp SignaturePubkey) encodeSignatureToScript(sigType byte) []byte {
 		r = append([]byte{0x00}, r...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if r[0] == 0 && r[1]&0x80 != 0x80 {
+			if len(r) > 1 && r[0] == 0 && r[1]&0x80 != 0x80 {
 				r = r[1:]
 			} else {
 				break
@@ -68,7 +68,7 @@ func (sp SignaturePubkey) encodeSignatureToScript(sigType byte) []byte {
 		s = append([]byte{0}, s...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if s[0] == 0 && s[1]&0x80 != 0x80 {
+			if len(s) > 1 && s[0] == 0 && s[1]&0x80 != 0x80 {
 				s = s[1:]
 			} else {
 				break
diff --git a/bitcoinsvTransaction/SignaturePubkey.go b/bitcoinsvTransaction/SignaturePubkey.go
index 016252a..fe4dcf3 100644
--- a/bitcoinsvTransaction/SignaturePubkey.go
+++ b/bitcoinsvTransaction/SignaturePubkey.go
@@ -57,7 +57,7 @@ func (sp SignaturePubkey) encodeSignatureToScript(sigType byte) []byte {
 		r = append([]byte{0x00}, r...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if r[0] == 0 && r[1]&0x80 != 0x80 {
+			if len(r) > 1 && r[0] == 0 && r[1]&0x80 != 0x80 {
 				r = r[1:]
 			} else {
 				break
@@ -68,7 +68,7 @@ func (sp SignaturePubkey) encodeSignatureToScript(sigType byte) []byte {
 		s = append([]byte{0}, s...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if s[0] == 0 && s[1]&0x80 != 0x80 {
+			if len(s) > 1 && s[0] == 0 && s[1]&0x80 != 0x80 {
 				s = s[1:]
 			} else {
 				break
diff --git a/btcLikeTxDriver/signaturepubkey.go b/btcLikeTxDriver/signaturepubkey.go
index ce5a687..0fef700 100644
--- a/btcLikeTxDriver/signaturepubkey.go
+++ b/btcLikeTxDriver/signaturepubkey.go
@@ -66,7 +66,7 @@ func (sp SignaturePubkey) encodeToScript(sigType byte) []byte {
 		r = append([]byte{0x00}, r...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if r[0] == 0 && r[1]&0x80 != 0x80 {
+			if len(r) > 1 && r[0] == 0 && r[1]&0x80 != 0x80 {
 				r = r[1:]
 			} else {
 				break
@@ -77,7 +77,7 @@ func (sp SignaturePubkey) encodeToScript(sigType byte) []byte {
 		s = append([]byte{0}, s...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if s[0] == 0 && s[1]&0x80 != 0x80 {
+			if len(s) > 1 && s[0] == 0 && s[1]&0x80 != 0x80 {
 				s = s[1:]
 			} else {
 				break
diff --git a/btcTransaction/SignaturePubkey.go b/btcTransaction/SignaturePubkey.go
index 45030d9..29386ff 100644
--- a/btcTransaction/SignaturePubkey.go
+++ b/btcTransaction/SignaturePubkey.go
@@ -57,7 +57,7 @@ func (sp SignaturePubkey) encodeSignatureToScript(sigType byte) []byte {
 		r = append([]byte{0x00}, r...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if r[0] == 0 && r[1]&0x80 != 0x80 {
+			if len(r) > 1 && r[0] == 0 && r[1]&0x80 != 0x80 {
 				r = r[1:]
 			} else {
 				break
@@ -68,7 +68,7 @@ func (sp SignaturePubkey) encodeSignatureToScript(sigType byte) []byte {
 		s = append([]byte{0}, s...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if s[0] == 0 && s[1]&0x80 != 0x80 {
+			if len(s) > 1 && s[0] == 0 && s[1]&0x80 != 0x80 {
 				s = s[1:]
 			} else {
 				break
diff --git a/cxcTransaction/SignaturePubkey.go b/cxcTransaction/SignaturePubkey.go
index cbbef07..ed36317 100644
--- a/cxcTransaction/SignaturePubkey.go
+++ b/cxcTransaction/SignaturePubkey.go
@@ -57,7 +57,7 @@ func (sp SignaturePubkey) encodeSignatureToScript(sigType byte) []byte {
 		r = append([]byte{0x00}, r...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if r[0] == 0 && r[1]&0x80 != 0x80 {
+			if len(r) > 1 && r[0] == 0 && r[1]&0x80 != 0x80 {
 				r = r[1:]
 			} else {
 				break
@@ -68,7 +68,7 @@ func (sp SignaturePubkey) encodeSignatureToScript(sigType byte) []byte {
 		s = append([]byte{0}, s...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if s[0] == 0 && s[1]&0x80 != 0x80 {
+			if len(s) > 1 && s[0] == 0 && s[1]&0x80 != 0x80 {
 				s = s[1:]
 			} else {
 				break
diff --git a/hcTransaction/SignaturePubkey.go b/hcTransaction/SignaturePubkey.go
index 3566f34..388ec79 100644
--- a/hcTransaction/SignaturePubkey.go
+++ b/hcTransaction/SignaturePubkey.go
@@ -58,7 +58,7 @@ func (sp SignaturePubkey) encodeSignatureToScript(sigType byte) []byte {
 		r = append([]byte{0x00}, r...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if r[0] == 0 && r[1]&0x80 != 0x80 {
+			if len(r) > 1 && r[0] == 0 && r[1]&0x80 != 0x80 {
 				r = r[1:]
 			} else {
 				break
@@ -69,7 +69,7 @@ func (sp SignaturePubkey) encodeSignatureToScript(sigType byte) []byte {
 		s = append([]byte{0}, s...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if s[0] == 0 && s[1]&0x80 != 0x80 {
+			if len(s) > 1 && s[0] == 0 && s[1]&0x80 != 0x80 {
 				s = s[1:]
 			} else {
 				break
diff --git a/hypercashTransaction/txSignature.go b/hypercashTransaction/txSignature.go
index d95fa71..5ae243a 100644
--- a/hypercashTransaction/txSignature.go
+++ b/hypercashTransaction/txSignature.go
@@ -63,7 +63,7 @@ func (sp SigPub) encodeSignatureToScript(sigType byte) []byte {
 		r = append([]byte{0x00}, r...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if r[0] == 0 && r[1]&0x80 != 0x80 {
+			if len(r) > 1 && r[0] == 0 && r[1]&0x80 != 0x80 {
 				r = r[1:]
 			} else {
 				break
@@ -74,7 +74,7 @@ func (sp SigPub) encodeSignatureToScript(sigType byte) []byte {
 		s = append([]byte{0}, s...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if s[0] == 0 && s[1]&0x80 != 0x80 {
+			if len(s) > 1 && s[0] == 0 && s[1]&0x80 != 0x80 {
 				s = s[1:]
 			} else {
 				break
diff --git a/mateverseTransaction/txSigPub.go b/mateverseTransaction/txSigPub.go
index 53421e9..de5bc23 100644
--- a/mateverseTransaction/txSigPub.go
+++ b/mateverseTransaction/txSigPub.go
@@ -17,7 +17,7 @@ func (sp SignaturePubkey) encodeSignatureToScript(sigType byte) []byte {
 		r = append([]byte{0x00}, r...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if r[0] == 0 && r[1]&0x80 != 0x80 {
+			if len(r) > 1 && r[0] == 0 && r[1]&0x80 != 0x80 {
 				r = r[1:]
 			} else {
 				break
@@ -28,7 +28,7 @@ func (sp SignaturePubkey) encodeSignatureToScript(sigType byte) []byte {
 		s = append([]byte{0}, s...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if s[0] == 0 && s[1]&0x80 != 0x80 {
+			if len(s) > 1 && s[0] == 0 && s[1]&0x80 != 0x80 {
 				s = s[1:]
 			} else {
 				break
diff --git a/omniTransaction/SignaturePubkey.go b/omniTransaction/SignaturePubkey.go
index 16ad1a3..a80fa54 100644
--- a/omniTransaction/SignaturePubkey.go
+++ b/omniTransaction/SignaturePubkey.go
@@ -57,7 +57,7 @@ func (sp SignaturePubkey) encodeSignatureToScript(sigType byte) []byte {
 		r = append([]byte{0x00}, r...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if r[0] == 0 && r[1]&0x80 != 0x80 {
+			if len(r) > 1 && r[0] == 0 && r[1]&0x80 != 0x80 {
 				r = r[1:]
 			} else {
 				break
@@ -68,7 +68,7 @@ func (sp SignaturePubkey) encodeSignatureToScript(sigType byte) []byte {
 		s = append([]byte{0}, s...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if s[0] == 0 && s[1]&0x80 != 0x80 {
+			if len(s) > 1 && s[0] == 0 && s[1]&0x80 != 0x80 {
 				s = s[1:]
 			} else {
 				break
diff --git a/rippleTransaction/txUtils.go b/rippleTransaction/txUtils.go
index a04e299..9009eb0 100644
--- a/rippleTransaction/txUtils.go
+++ b/rippleTransaction/txUtils.go
@@ -54,7 +54,7 @@ func getSignatureBytes(sp []byte) []byte {
 		r = append([]byte{0x00}, r...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if r[0] == 0 && r[1]&0x80 != 0x80 {
+			if len(r) > 1 && r[0] == 0 && r[1]&0x80 != 0x80 {
 				r = r[1:]
 			} else {
 				break
@@ -65,7 +65,7 @@ func getSignatureBytes(sp []byte) []byte {
 		s = append([]byte{0}, s...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if s[0] == 0 && s[1]&0x80 != 0x80 {
+			if len(s) > 1 && s[0] == 0 && s[1]&0x80 != 0x80 {
 				s = s[1:]
 			} else {
 				break
diff --git a/vergeTransaction/txSigPub.go b/vergeTransaction/txSigPub.go
index 81c75aa..4b30fe3 100644
--- a/vergeTransaction/txSigPub.go
+++ b/vergeTransaction/txSigPub.go
@@ -60,7 +60,7 @@ func (sp SigPub) ToBytes() []byte {
 		r = append([]byte{0x00}, r...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if r[0] == 0 && r[1]&0x80 != 0x80 {
+			if len(r) > 1 && r[0] == 0 && r[1]&0x80 != 0x80 {
 				r = r[1:]
 			} else {
 				break
@@ -71,7 +71,7 @@ func (sp SigPub) ToBytes() []byte {
 		s = append([]byte{0}, s...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if s[0] == 0 && s[1]&0x80 != 0x80 {
+			if len(s) > 1 && s[0] == 0 && s[1]&0x80 != 0x80 {
 				s = s[1:]
 			} else {
 				break
diff --git a/vollarTransaction/txSigPub.go b/vollarTransaction/txSigPub.go
index 1440be1..c9bc69d 100644
--- a/vollarTransaction/txSigPub.go
+++ b/vollarTransaction/txSigPub.go
@@ -60,7 +60,7 @@ func (sp SigPub) ToBytes() []byte {
 		r = append([]byte{0x00}, r...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if r[0] == 0 && r[1]&0x80 != 0x80 {
+			if len(r) > 1 && r[0] == 0 && r[1]&0x80 != 0x80 {
 				r = r[1:]
 			} else {
 				break
@@ -71,7 +71,7 @@ func (sp SigPub) ToBytes() []byte {
 		s = append([]byte{0}, s...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if s[0] == 0 && s[1]&0x80 != 0x80 {
+			if len(s) > 1 && s[0] == 0 && s[1]&0x80 != 0x80 {
 				s = s[1:]
 			} else {
 				break
diff --git a/waykichainTransaction/txSignature.go b/waykichainTransaction/txSignature.go
index 2aa059c..de56c28 100644
--- a/waykichainTransaction/txSignature.go
+++ b/waykichainTransaction/txSignature.go
@@ -12,7 +12,7 @@ func (sp SigPub) ToBytes() []byte {
 		r = append([]byte{0x00}, r...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if r[0] == 0 && r[1]&0x80 != 0x80 {
+			if len(r) > 1 && r[0] == 0 && r[1]&0x80 != 0x80 {
 				r = r[1:]
 			} else {
 				break
@@ -23,7 +23,7 @@ func (sp SigPub) ToBytes() []byte {
 		s = append([]byte{0}, s...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if s[0] == 0 && s[1]&0x80 != 0x80 {
+			if len(s) > 1 && s[0] == 0 && s[1]&0x80 != 0x80 {
 				s = s[1:]
 			} else {
 				break
diff --git a/zencashTransaction/SignaturePubkey.go b/zencashTransaction/SignaturePubkey.go
index bdcadbe..6acdd54 100644
--- a/zencashTransaction/SignaturePubkey.go
+++ b/zencashTransaction/SignaturePubkey.go
@@ -57,7 +57,7 @@ func (sp SignaturePubkey) encodeSignatureToScript(sigType byte) []byte {
 		r = append([]byte{0x00}, r...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if r[0] == 0 && r[1]&0x80 != 0x80 {
+			if len(r) > 1 && r[0] == 0 && r[1]&0x80 != 0x80 {
 				r = r[1:]
 			} else {
 				break
@@ -68,7 +68,7 @@ func (sp SignaturePubkey) encodeSignatureToScript(sigType byte) []byte {
 		s = append([]byte{0}, s...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if s[0] == 0 && s[1]&0x80 != 0x80 {
+			if len(s) > 1 && s[0] == 0 && s[1]&0x80 != 0x80 {
 				s = s[1:]
 			} else {
 				break
-- 
2.43.0


From 5e45e325ea19e00dd81ff2cee72d55a148bbd7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:29 +0000
Subject: [PATCH 063/106] fix: decodeMultiBytes does not read behind a
 truncated multisig script

---
 bitcoincashTransaction/txMultiSig.go | 11 +++++++++--
 bitcoinsvTransaction/txMultiSig.go   | 11 +++++++++--
 btcTransaction/txMultiSig.go         | 11 +++++++++--
 cxcTransaction/txMultiSig.go         | 11 +++++++++--
 hcTransaction/txMultiSig.go          | 11 +++++++++--
 omniTransaction/txMultiSig.go        | 11 +++++++++--
 zencashTransaction/txMultiSig.go     | 11 +++++++++--
 7 files changed, 63 insertions(+), 14 deletions(-)

diff --git a/bitcoincashTransaction/txMultiSig.go b/bitcoincashTransaction/txMultiSig.go
index d75e1bd..435d99d 100644
--- a/bitcoincashTransaction/txMultiSig.go
+++ b/bitcoincashTransaction/txMultiSig.go
@@ -135,6 +135,9 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 			return nil, nil, errors.New("Invalid multisig script data!")
 		}
 	}
+	if index+1 > limit {
+		return nil, nil, errors.New("Invalid multisig script data!")
+	}
 	if script[index] != 0x00 {
 		return nil, nil, errors.New("Invalid multisig script data!")
 	}
@@ -157,7 +160,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 		}
 		sp = append(sp, SignaturePubkey{sig, nil})
 		st = append(st, sigType)
-		index += int(sigLen + 1)
+		index += int(sigLen) + 1
 	}
 	if index+1 > limit {
 		return nil, nil, errors.New("Invalid multisig script data!")
@@ -196,6 +199,10 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 		return nil, nil, errors.New("Invalid multisig script data!")
 	}
 
+	if redeemLen < 3 {
+		return nil, nil, errors.New("Invalid multisig script data!")
+	}
+
 	if script[len(script)-1] != OpCheckMultiSig {
 		return nil, nil, errors.New("Invalid multisig script data!")
 	}
@@ -210,7 +217,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 	}
 
 	index = 0
-	limit = redeemLen
+	limit = len(pscript)
 	for i := 0; i < pubkeys; i++ {
 		if index+1 > limit {
 			return nil, nil, errors.New("Invalid multisig script data!")
diff --git a/bitcoinsvTransaction/txMultiSig.go b/bitcoinsvTransaction/txMultiSig.go
index d632301..21af7bd 100644
--- a/bitcoinsvTransaction/txMultiSig.go
+++ b/bitcoinsvTransaction/txMultiSig.go
@@ -135,6 +135,9 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 			return nil, nil, errors.New("Invalid multisig script data!")
 		}
 	}
+	if index+1 > limit {
+		return nil, nil, errors.New("Invalid multisig script data!")
+	}
 	if script[index] != 0x00 {
 		return nil, nil, errors.New("Invalid multisig script data!")
 	}
@@ -157,7 +160,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 		}
 		sp = append(sp, SignaturePubkey{sig, nil})
 		st = append(st, sigType)
-		index += int(sigLen + 1)
+		index += int(sigLen) + 1
 	}
 	if index+1 > limit {
 		return nil, nil, errors.New("Invalid multisig script data!")
@@ -196,6 +199,10 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 		return nil, nil, errors.New("Invalid multisig script data!")
 	}
 
+	if redeemLen < 3 {
+		return nil, nil, errors.New("Invalid multisig script data!")
+	}
+
 	if script[len(script)-1] != OpCheckMultiSig {
 		return nil, nil, errors.New("Invalid multisig script data!")
 	}
@@ -210,7 +217,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 	}
 
 	index = 0
-	limit = redeemLen
+	limit = len(pscript)
 	for i := 0; i < pubkeys; i++ {
 		if index+1 > limit {
 			return nil, nil, errors.New("Invalid multisig script data!")
diff --git a/btcTransaction/txMultiSig.go b/btcTransaction/txMultiSig.go
index bcbabd2..bb8897f 100644
--- a/btcTransaction/txMultiSig.go
+++ b/btcTransaction/txMultiSig.go
@@ -135,6 +135,9 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 			return nil, nil, errors.New("Invalid multisig script data!")
 		}
 	}
+	if index+1 > limit {
+		return nil, nil, errors.New("Invalid multisig script data!")
+	}
 	if script[index] != 0x00 {
 		return nil, nil, errors.New("Invalid multisig script data!")
 	}
@@ -157,7 +160,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 		}
 		sp = append(sp, SignaturePubkey{sig, nil})
 		st = append(st, sigType)
-		index += int(sigLen + 1)
+		index += int(sigLen) + 1
 	}
 	if index+1 > limit {
 		return nil, nil, errors.New("Invalid multisig script data!")
@@ -196,6 +199,10 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 		return nil, nil, errors.New("Invalid multisig script data!")
 	}
 
+	if redeemLen < 3 {
+		return nil, nil, errors.New("Invalid multisig script data!")
+	}
+
 	if script[len(script)-1] != OpCheckMultiSig {
 		return nil, nil, errors.New("Invalid multisig script data!")
 	}
@@ -210,7 +217,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 	}
 
 	index = 0
-	limit = redeemLen
+	limit = len(pscript)
 	for i := 0; i < pubkeys; i++ {
 		if index+1 > limit {
 			return nil, nil, errors.New("Invalid multisig script data!")
diff --git a/cxcTransaction/txMultiSig.go b/cxcTransaction/txMultiSig.go
index c04390f..2be6e83 100644
--- a/cxcTransaction/txMultiSig.go
+++ b/cxcTransaction/txMultiSig.go
@@ -135,6 +135,9 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 			return nil, nil, errors.New("Invalid multisig script data!")
 		}
 	}
+	if index+1 > limit {
+		return nil, nil, errors.New("Invalid multisig script data!")
+	}
 	if script[index] != 0x00 {
 		return nil, nil, errors.New("Invalid multisig script data!")
 	}
@@ -157,7 +160,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 		}
 		sp = append(sp, SignaturePubkey{sig, nil})
 		st = append(st, sigType)
-		index += int(sigLen + 1)
+		index += int(sigLen) + 1
 	}
 	if index+1 > limit {
 		return nil, nil, errors.New("Invalid multisig script data!")
@@ -196,6 +199,10 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 		return nil, nil, errors.New("Invalid multisig script data!")
 	}
 
+	if redeemLen < 3 {
+		return nil, nil, errors.New("Invalid multisig script data!")
+	}
+
 	if script[len(script)-1] != OpCheckMultiSig {
 		return nil, nil, errors.New("Invalid multisig script data!")
 	}
@@ -210,7 +217,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 	}
 
 	index = 0
-	limit = redeemLen
+	limit = len(pscript)
 	for i := 0; i < pubkeys; i++ {
 		if index+1 > limit {
 			return nil, nil, errors.New("Invalid multisig script data!")
diff --git a/hcTransaction/txMultiSig.go b/hcTransaction/txMultiSig.go
index 419b490..d4f0b43 100644
--- a/hcTransaction/txMultiSig.go
+++ b/hcTransaction/txMultiSig.go
@@ -135,6 +135,9 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 			return nil, nil, errors.New("Invalid multisig script data!")
 		}
 	}
+	if index+1 > limit {
+		return nil, nil, errors.New("Invalid multisig script data!")
+	}
 	if script[index] != 0x00 {
 		return nil, nil, errors.New("Invalid multisig script data!")
 	}
@@ -157,7 +160,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 		}
 		sp = append(sp, SignaturePubkey{sig, nil})
 		st = append(st, sigType)
-		index += int(sigLen + 1)
+		index += int(sigLen) + 1
 	}
 	if index+1 > limit {
 		return nil, nil, errors.New("Invalid multisig script data!")
@@ -196,6 +199,10 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 		return nil, nil, errors.New("Invalid multisig script data!")
 	}
 
+	if redeemLen < 3 {
+		return nil, nil, errors.New("Invalid multisig script data!")
+	}
+
 	if script[len(script)-1] != OpCheckMultiSig {
 		return nil, nil, errors.New("Invalid multisig script data!")
 	}
@@ -210,7 +217,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 	}
 
 	index = 0
-	limit = redeemLen
+	limit = len(pscript)
 	for i := 0; i < pubkeys; i++ {
 		if index+1 > limit {
 			return nil, nil, errors.New("Invalid multisig script data!")
diff --git a/omniTransaction/txMultiSig.go b/omniTransaction/txMultiSig.go
index dc46465..307c02b 100644
--- a/omniTransaction/txMultiSig.go
+++ b/omniTransaction/txMultiSig.go
@@ -134,6 +134,9 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 			return nil, nil, errors.New("Invalid multisig script data!")
 		}
 	}
+	if index+1 > limit {
+		return nil, nil, errors.New("Invalid multisig script data!")
+	}
 	if script[index] != 0x00 {
 		return nil, nil, errors.New("Invalid multisig script data!")
 	}
@@ -156,7 +159,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 		}
 		sp = append(sp, SignaturePubkey{sig, nil})
 		st = append(st, sigType)
-		index += int(sigLen + 1)
+		index += int(sigLen) + 1
 	}
 	if index+1 > limit {
 		return nil, nil, errors.New("Invalid multisig script data!")
@@ -195,6 +198,10 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 		return nil, nil, errors.New("Invalid multisig script data!")
 	}
 
+	if redeemLen < 3 {
+		return nil, nil, errors.New("Invalid multisig script data!")
+	}
+
 	if script[len(script)-1] != OpCheckMultiSig {
 		return nil, nil, errors.New("Invalid multisig script data!")
 	}
@@ -209,7 +216,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 	}
 
 	index = 0
-	limit = redeemLen
+	limit = len(pscript)
 	for i := 0; i < pubkeys; i++ {
 		if index+1 > limit {
 			return nil, nil, errors.New("Invalid multisig script data!")
diff --git a/zencashTransaction/txMultiSig.go b/zencashTransaction/txMultiSig.go
index fdba095..a920dac 100644
--- a/zencashTransaction/txMultiSig.go
+++ b/zencashTransaction/txMultiSig.go
@@ -135,6 +135,9 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 			return nil, nil, errors.New("Invalid multisig script data!")
 		}
 	}
+	if index+1 > limit {
+		return nil, nil, errors.New("Invalid multisig script data!")
+	}
 	if script[index] != 0x00 {
 		return nil, nil, errors.New("Invalid multisig script data!")
 	}
@@ -157,7 +160,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 		}
 		sp = append(sp, SignaturePubkey{sig, nil})
 		st = append(st, sigType)
-		index += int(sigLen + 1)
+		index += int(sigLen) + 1
 	}
 	if index+1 > limit {
 		return nil, nil, errors.New("Invalid multisig script data!")
@@ -196,6 +199,10 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 		return nil, nil, errors.New("Invalid multisig script data!")
 	}
 
+	if redeemLen < 3 {
+		return nil, nil, errors.New("Invalid multisig script data!")
+	}
+
 	if script[len(script)-1] != OpCheckMultiSig {
 		return nil, nil, errors.New("Invalid multisig script data!")
 	}
@@ -210,7 +217,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 	}
 
 	index = 0
-	limit = redeemLen
+	limit = len(pscript)
 	for i := 0; i < pubkeys; i++ {
 		if index+1 > limit {
 			return nil, nil, errors.New("Invalid multisig script data!")
-- 
2.43.0


From 5027ab0c989d082fd135a0dcc9107c27a0e53c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:29 +0000
Subject: [PATCH 064/106] fix: zencashTransaction: refuse lock scripts that are
 no pay-to-pubkey-hash script

---
 zencashTransaction/txHash.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/zencashTransaction/txHash.go b/zencashTransaction/txHash.go
index d530c6f..c024f5e 100644
--- a/zencashTransaction/txHash.go
+++ b/zencashTransaction/txHash.go
@@ -260,7 +260,10 @@ func (t Transaction) getHashesForSig(unlockData []TxUnlock, SegwitON bool, addre
 		//if err != nil {
 		//	return nil, err
 		//}
-		lockBytes, _ := hex.DecodeString(unlockData[i].LockScript)
+		lockBytes, err := hex.DecodeString(unlockData[i].LockScript)
+		if err != nil || len(lockBytes) < 25 {
+			return nil, errors.New("Invalid lock script!")
+		}
 
 		sigBytes, err := t.getBytesForSig(lockBytes, nil, TypeP2PKH, unlockData[i].SigType, i, unlockData[i].Amount, SegwitON)
 		if err != nil {
-- 
2.43.0


From ac85bdceafd5527be898fc1842d7d752b9021c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:41 +0000
Subject: [PATCH 065/106] fix: owkeychain: extended keys do not share memory
 with their callers

---
 owkeychain/extendedkey.go | 6 +++---
 owkeychain/hdkey.go       | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/owkeychain/extendedkey.go b/owkeychain/extendedkey.go
index 23b95bc..66751c8 100644
--- a/owkeychain/extendedkey.go
+++ b/owkeychain/extendedkey.go
@@ -61,10 +61,10 @@ func NewExtendedKey(key, chainCode, parentFP []byte, depth uint8,
 
 	return &ExtendedKey{
 		depth:      depth,
-		parentFP:   parentFP,
+		parentFP:   append([]byte{}, parentFP...),
 		serializes: serializes,
-		chainCode:  chainCode,
-		key:        key,
+		chainCode:  append([]byte{}, chainCode...),
+		key:        append([]byte{}, key...),
 		isPrivate:  isPrivate,
 		curveType:  curveType,
 	}
diff --git a/owkeychain/hdkey.go b/owkeychain/hdkey.go
index ff58e4e..0405003 100644
--- a/owkeychain/hdkey.go
+++ b/owkeychain/hdkey.go
@@ -148,7 +148,7 @@ func (k *ExtendedKey) GetPublicKeyBytes() []byte {
 	if k.isPrivate {
 		return owcrypt.Point_mulBaseG(k.key, typeChoose)
 	}
-	return k.key
+	return append([]byte{}, k.key...)
 }
 
 ////GetPublicKeyUncompressedBytes 获取当前密钥对应的公钥(未压缩，且去除04)
@@ -183,7 +183,7 @@ func (k *ExtendedKey) GetPublicKey() *ExtendedKey {
 //GetPrivateKey 获取当前密钥对应的私钥数组
 func (k *ExtendedKey) GetPrivateKeyBytes() ([]byte, error) {
 	if k.isPrivate {
-		return k.key, nil
+		return append([]byte{}, k.key...), nil
 	}
 	return nil, ErrKeyIsNotPrivate
 }
-- 
2.43.0


From e1b79db70861543dbe9e35ba2b29f14b4d6e3832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:14 +0000
Subject: [PATCH 066/106] fix: btcLikeTxDriver: transactions can pay to bech32
 addresses

---
 btcLikeTxDriver/bech32.go | 6 ++++++
 btcLikeTxDriver/txOut.go  | 5 +++++
 2 files changed, 11 insertions(+)

diff --git a/btcLikeTxDriver/bech32.go b/btcLikeTxDriver/bech32.go
index 1e138c0..adf462f 100644
--- a/btcLikeTxDriver/bech32.go
+++ b/btcLikeTxDriver/bech32.go
@@ -1,6 +1,7 @@
 package btcLikeTxDriver
 
 import (
+	"encoding/hex"
 	"errors"
 	"strings"
 )
@@ -222,5 +223,10 @@ func Bech32Decode(address string) ([]byte, error) {
 	for i := 0; i < len(ret); i++ {
 		bytePayload[i] = byte(ret[i])
 	}
+
+	if len(bytePayload) == 33 {
+		tmp := hex.EncodeToString(bytePayload)[1:65]
+		bytePayload, _ = hex.DecodeString(tmp)
+	}
 	return bytePayload, nil
 }
diff --git a/btcLikeTxDriver/txOut.go b/btcLikeTxDriver/txOut.go
index a99cd2d..0a6346e 100644
--- a/btcLikeTxDriver/txOut.go
+++ b/btcLikeTxDriver/txOut.go
@@ -22,10 +22,15 @@ func newTxOutForEmptyTrans(vout []Vout) ([]TxOut, error) {
 				return nil, errors.New("Invalid bech32 type address!")
 			}
 
+			if len(redeem) != 0x14 && len(redeem) != 0x20 {
+				return nil, errors.New("Invalid bech32 type address!")
+			}
+
 			redeem = append([]byte{byte(len(redeem))}, redeem...)
 			redeem = append([]byte{0x00}, redeem...)
 
 			ret = append(ret, TxOut{amount, redeem})
+			continue
 		}
 
 		prefix, hash, err := DecodeCheck(v.Address)
-- 
2.43.0


From ec89bdf20999addf39eb18763517f5af89a3665e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:14 +0000
Subject: [PATCH 067/106] fix: btcLikeTxDriver: counts and lengths above 252
 are encoded as the network does

---
 btcLikeTxDriver/txStruct.go | 70 ++++++++++++++++++-------------------
 btcLikeTxDriver/utils.go    | 29 +++++++++++++++
 2 files changed, 64 insertions(+), 35 deletions(-)

diff --git a/btcLikeTxDriver/txStruct.go b/btcLikeTxDriver/txStruct.go
index 6cad74c..47ce0fd 100644
--- a/btcLikeTxDriver/txStruct.go
+++ b/btcLikeTxDriver/txStruct.go
@@ -59,7 +59,7 @@ func (t Transaction) encodeToBytes() ([]byte, error) {
 			return nil, errors.New("No witness data for a multisig transaction!")
 		}
 		ret = append(ret, SegWitSymbol, SegWitVersion)
-		ret = append(ret, byte(len(t.Vins)))
+		ret = append(ret, compactSize(len(t.Vins))...)
 		for _, in := range t.Vins {
 			if in.TxID == nil || len(in.TxID) != 32 || in.Vout == nil || len(in.Vout) != 4 {
 				return nil, errors.New("Invalid transaction input!")
@@ -71,14 +71,14 @@ func (t Transaction) encodeToBytes() ([]byte, error) {
 			ret = append(ret, redeemHash...)
 			ret = append(ret, in.Sequence...)
 		}
-		ret = append(ret, byte(len(t.Vouts)))
+		ret = append(ret, compactSize(len(t.Vouts))...)
 
 		for _, out := range t.Vouts {
 			if out.amount == nil || len(out.amount) != 8 || out.lockScript == nil {
 				return nil, errors.New("Invalid transaction output!")
 			}
 			ret = append(ret, out.amount...)
-			ret = append(ret, byte(len(out.lockScript)))
+			ret = append(ret, compactSize(len(out.lockScript))...)
 			ret = append(ret, out.lockScript...)
 		}
 
@@ -93,7 +93,7 @@ func (t Transaction) encodeToBytes() ([]byte, error) {
 			}
 		}
 
-		ret = append(ret, byte(len(t.Vins[0].ScriptPubkeySignature)))
+		ret = append(ret, compactSize(len(t.Vins[0].ScriptPubkeySignature))...)
 
 		ret = append(ret, t.Vins[0].ScriptPubkeySignature...)
 	} else {
@@ -102,7 +102,7 @@ func (t Transaction) encodeToBytes() ([]byte, error) {
 			ret = append(ret, SegWitSymbol, SegWitVersion)
 		}
 
-		ret = append(ret, byte(len(t.Vins)))
+		ret = append(ret, compactSize(len(t.Vins))...)
 
 		for _, in := range t.Vins {
 			if in.TxID == nil || len(in.TxID) != 32 || in.Vout == nil || len(in.Vout) != 4 {
@@ -113,20 +113,20 @@ func (t Transaction) encodeToBytes() ([]byte, error) {
 			if in.ScriptPubkeySignature == nil {
 				ret = append(ret, 0x00)
 			} else {
-				ret = append(ret, byte(len(in.ScriptPubkeySignature)))
+				ret = append(ret, compactSize(len(in.ScriptPubkeySignature))...)
 				ret = append(ret, in.ScriptPubkeySignature...)
 			}
 			ret = append(ret, in.Sequence...)
 		}
 
-		ret = append(ret, byte(len(t.Vouts)))
+		ret = append(ret, compactSize(len(t.Vouts))...)
 
 		for _, out := range t.Vouts {
 			if out.amount == nil || len(out.amount) != 8 || out.lockScript == nil {
 				return nil, errors.New("Invalid transaction output!")
 			}
 			ret = append(ret, out.amount...)
-			ret = append(ret, byte(len(out.lockScript)))
+			ret = append(ret, compactSize(len(out.lockScript))...)
 			ret = append(ret, out.lockScript...)
 		}
 
@@ -172,13 +172,13 @@ func DecodeRawTransaction(txBytes []byte) (*Transaction, error) {
 		index += 2
 	}
 
-	if index+1 > limit {
-		return nil, errors.New("Invalid transaction data length!")
+	numOfVins, size, err := readCompactSize(txBytes[index:])
+	if err != nil {
+		return nil, err
 	}
-	numOfVins := txBytes[index]
-	index++
+	index += size
 
-	for i := byte(0); i < numOfVins; i++ {
+	for i := 0; i < numOfVins; i++ {
 		var tmpTxIn TxIn
 
 		if index+32 > limit {
@@ -193,20 +193,20 @@ func DecodeRawTransaction(txBytes []byte) (*Transaction, error) {
 		tmpTxIn.Vout = txBytes[index : index+4]
 		index += 4
 
-		if index+1 > limit {
-			return nil, errors.New("Invalid transaction data length!")
+		scriptLen, size, err := readCompactSize(txBytes[index:])
+		if err != nil {
+			return nil, err
 		}
-		scriptLen := txBytes[index]
-		index++
+		index += size
 		if scriptLen == 0 {
 			tmpTxIn.ScriptPubkeySignature = nil
 		} else {
-			if index+int(scriptLen) > limit {
+			if index+scriptLen > limit {
 				return nil, errors.New("Invalid transaction data length!")
 			}
-			tmpTxIn.ScriptPubkeySignature = txBytes[index : index+int(scriptLen)]
+			tmpTxIn.ScriptPubkeySignature = txBytes[index : index+scriptLen]
 		}
-		index += int(scriptLen)
+		index += scriptLen
 
 		if index+4 > limit {
 			return nil, errors.New("Invalid transaction data length!")
@@ -217,13 +217,13 @@ func DecodeRawTransaction(txBytes []byte) (*Transaction, error) {
 		rawTx.Vins = append(rawTx.Vins, tmpTxIn)
 	}
 
-	if index+1 > limit {
-		return nil, errors.New("Invalid transaction data length!")
+	numOfVouts, size, err := readCompactSize(txBytes[index:])
+	if err != nil {
+		return nil, err
 	}
-	numOfVouts := txBytes[index]
-	index++
+	index += size
 
-	for i := byte(0); i < numOfVouts; i++ {
+	for i := 0; i < numOfVouts; i++ {
 		var tmpTxOut TxOut
 
 		if index+8 > limit {
@@ -232,23 +232,23 @@ func DecodeRawTransaction(txBytes []byte) (*Transaction, error) {
 		tmpTxOut.amount = txBytes[index : index+8]
 		index += 8
 
-		if index+1 > limit {
-			return nil, errors.New("Invalid transaction data length!")
+		lockScriptLen, size, err := readCompactSize(txBytes[index:])
+		if err != nil {
+			return nil, err
 		}
-		lockScriptLen := txBytes[index]
-		index++
+		index += size
 
-		if index+int(lockScriptLen) > limit {
+		if index+lockScriptLen > limit {
 			return nil, errors.New("Invalid transaction data length!")
 		}
-		tmpTxOut.lockScript = txBytes[index : index+int(lockScriptLen)]
-		index += int(lockScriptLen)
+		tmpTxOut.lockScript = txBytes[index : index+lockScriptLen]
+		index += lockScriptLen
 
 		rawTx.Vouts = append(rawTx.Vouts, tmpTxOut)
 	}
 
 	if segwit {
-		for i := byte(0); i < numOfVins; i++ {
+		for i := 0; i < numOfVins; i++ {
 			if index+1 > limit {
 				return nil, errors.New("Invalid transaction data length!")
 			}
@@ -322,7 +322,7 @@ func calcSegwitHash(tx Transaction) ([]byte, []byte, []byte, error) {
 
 	for _, vout := range tx.Vouts {
 		hashOutputs = append(hashOutputs, vout.amount...)
-		hashOutputs = append(hashOutputs, byte(len(vout.lockScript)))
+		hashOutputs = append(hashOutputs, compactSize(len(vout.lockScript))...)
 		hashOutputs = append(hashOutputs, vout.lockScript...)
 	}
 	return owcrypt.Hash(hashPrevouts, 0, owcrypt.HASH_ALG_DOUBLE_SHA256),
@@ -375,7 +375,7 @@ func (tx Transaction) calcSegwitBytesForSig(unlockData TxUnlock, txid, vout, seq
 		return nil, err
 	}
 
-	sigBytes = append(sigBytes, byte(len(scriptCode)))
+	sigBytes = append(sigBytes, compactSize(len(scriptCode))...)
 	sigBytes = append(sigBytes, scriptCode...)
 
 	sigBytes = append(sigBytes, uint64ToLittleEndianBytes(unlockData.Amount)...)
diff --git a/btcLikeTxDriver/utils.go b/btcLikeTxDriver/utils.go
index 120af24..c80fb3a 100644
--- a/btcLikeTxDriver/utils.go
+++ b/btcLikeTxDriver/utils.go
@@ -43,6 +43,35 @@ func littleEndianBytesToUint32(data []byte) uint32 {
 	return binary.LittleEndian.Uint32(data)
 }
 
+//compactSize encodes a count or length the way the network serialization does
+func compactSize(n int) []byte {
+	if n < 0xFD {
+		return []byte{byte(n)}
+	}
+	if n <= 0xFFFF {
+		ret := []byte{0xFD, 0, 0}
+		binary.LittleEndian.PutUint16(ret[1:], uint16(n))
+		return ret
+	}
+	return append([]byte{0xFE}, uint32ToLittleEndianBytes(uint32(n))...)
+}
+
+//readCompactSize decodes a count or length, it returns the value and the number of bytes read
+func readCompactSize(data []byte) (int, int, error) {
+	if len(data) < 1 {
+		return 0, 0, errors.New("Invalid transaction data length!")
+	}
+	if data[0] < 0xFD {
+		return int(data[0]), 1, nil
+	}
+	if data[0] == 0xFD && len(data) >= 3 {
+		if n := int(binary.LittleEndian.Uint16(data[1:3])); n >= 0xFD {
+			return n, 3, nil
+		}
+	}
+	return 0, 0, errors.New("Invalid transaction data length!")
+}
+
 //uint64ToLittleEndianBytes
 func uint64ToLittleEndianBytes(data uint64) []byte {
 	tmp := [8]byte{}
-- 
2.43.0


From 9896dac28ec55d20ecc6bc2b980c7d3ed6585315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:14 +0000
Subject: [PATCH 068/106] fix: btcLikeTxDriver: witness signatures with short r
 or s values are encoded and decoded

---
 btcLikeTxDriver/signaturepubkey.go |   2 +-
 btcLikeTxDriver/txStruct.go        |   6 +-
 btcLikeTxDriver/witness.go         | 101 ++---------------------------
 3 files changed, 11 insertions(+), 98 deletions(-)

diff --git a/btcLikeTxDriver/signaturepubkey.go b/btcLikeTxDriver/signaturepubkey.go
index 0fef700..b3d6067 100644
--- a/btcLikeTxDriver/signaturepubkey.go
+++ b/btcLikeTxDriver/signaturepubkey.go
@@ -159,7 +159,7 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, error) {
 	if index+int(rLen) > limit {
 		return nil, errors.New("Invalid script data!")
 	}
-	ret.Signature = script[index : index+int(rLen)]
+	ret.Signature = append([]byte{}, script[index:index+int(rLen)]...)
 	if rLen == 0x21 {
 		ret.Signature = ret.Signature[1:]
 	}
diff --git a/btcLikeTxDriver/txStruct.go b/btcLikeTxDriver/txStruct.go
index 47ce0fd..8000b71 100644
--- a/btcLikeTxDriver/txStruct.go
+++ b/btcLikeTxDriver/txStruct.go
@@ -266,13 +266,17 @@ func DecodeRawTransaction(txBytes []byte) (*Transaction, error) {
 				if index+int(length)+1+34 > limit {
 					return nil, errors.New("Invalid transaction data length!")
 				}
-				witness, _ := decodeFromSegwitBytes(txBytes[index : index+int(length)+1+34])
+				witness, err := decodeFromSegwitBytes(txBytes[index : index+int(length)+1+34])
+				if err != nil {
+					return nil, err
+				}
 				rawTx.Witness = append(rawTx.Witness, *witness)
 
 				index += int(length) + 1 + 34
 			} else {
 				//TODO
 				//for multisig
+				return nil, errors.New("Unsupported witness data!")
 			}
 		}
 	}
diff --git a/btcLikeTxDriver/witness.go b/btcLikeTxDriver/witness.go
index 36d9a11..43250df 100644
--- a/btcLikeTxDriver/witness.go
+++ b/btcLikeTxDriver/witness.go
@@ -1,109 +1,18 @@
 package btcLikeTxDriver
 
-import "errors"
-
 type TxWitness struct {
 	Signature []byte
 	Pubkey    []byte
 }
 
 func (w TxWitness) encodeToScript(sigType byte) []byte {
-	r := w.Signature[:32]
-	s := w.Signature[32:]
-
-	if r[0]&0x80 == 0x80 {
-		r = append([]byte{0x00}, r...)
-	}
-	if s[0]&0x80 == 0x80 {
-		s = append([]byte{0}, s...)
-	}
-
-	r = append([]byte{byte(len(r))}, r...)
-	r = append([]byte{0x02}, r...)
-	s = append([]byte{byte(len(s))}, s...)
-	s = append([]byte{0x02}, s...)
-
-	rs := append(r, s...)
-	rs = append([]byte{byte(len(rs))}, rs...)
-	rs = append(rs, sigType)
-	rs = append([]byte{0x30}, rs...)
-	rs = append([]byte{byte(len(rs))}, rs...)
-
-	pub := append([]byte{byte(len(w.Pubkey))}, w.Pubkey...)
-
-	return append(rs, pub...)
+	return SignaturePubkey{w.Signature, w.Pubkey}.encodeToScript(sigType)
 }
 
 func decodeFromSegwitBytes(script []byte) (*TxWitness, error) {
-	var ret TxWitness
-	index := 0
-	sigLen := script[index]
-	index++
-
-	if script[index] != 0x30 {
-		return nil, errors.New("Invalid signature data!")
-	}
-	index++
-
-	rsLen := script[index]
-	index++
-
-	if script[index] != 0x02 {
-		return nil, errors.New("Invalid signature data!")
-	}
-	index++
-
-	rLen := script[index]
-	index++
-
-	if rLen == 0x21 {
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
-			return nil, errors.New("Invalid signature data!")
-		}
-		index++
-	}
-
-	ret.Signature = script[index : index+32]
-	index += 32
-
-	if script[index] != 0x02 {
-		return nil, errors.New("Invalid signature data!")
-	}
-	index++
-
-	sLen := script[index]
-	index++
-
-	if sLen == 0x21 {
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
-			return nil, errors.New("Invalid signature data!")
-		}
-		index++
-	}
-
-	ret.Signature = append(ret.Signature, script[index:index+32]...)
-	index += 32
-
-	if script[index] != SigHashAll {
-		return nil, errors.New("Only sigAll supported!")
-	}
-	index++
-
-	pubLen := script[index]
-	index++
-	if pubLen != 0x21 {
-		return nil, errors.New("Only compressed pubkey is supported!")
-	}
-
-	ret.Pubkey = script[index : index+33]
-	index += 33
-
-	if (rLen+sLen+4 != rsLen) || (rsLen+3 != sigLen) || (sigLen+pubLen+2 != byte(len(script))) {
-		return nil, errors.New("Invalid transaction data!")
-	}
-
-	if index != len(script) {
-		return nil, errors.New("Invalid transaction data!")
+	ret, err := decodeFromScriptBytes(script)
+	if err != nil {
+		return nil, err
 	}
-	return &ret, nil
+	return &TxWitness{ret.Signature, ret.Pubkey}, nil
 }
-- 
2.43.0


From 6999fcba47e437221349cde4c22c222a70644c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:14 +0000
Subject: [PATCH 069/106] fix: btcLikeTxDriver: SignEmptyRawTransaction signs
 every segwit input

---
 btcLikeTxDriver/transaction.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/btcLikeTxDriver/transaction.go b/btcLikeTxDriver/transaction.go
index e82938e..031d308 100644
--- a/btcLikeTxDriver/transaction.go
+++ b/btcLikeTxDriver/transaction.go
@@ -112,8 +112,8 @@ func SignEmptyRawTransaction(txHex string, unlockData []TxUnlock) (string, error
 				for j := 0; j < i; j++ {
 					emptyTrans.Witness = append(emptyTrans.Witness, TxWitness{})
 				}
-				emptyTrans.Witness = append(emptyTrans.Witness, TxWitness{sigPub[i].Signature, sigPub[i].Pubkey})
 			}
+			emptyTrans.Witness = append(emptyTrans.Witness, TxWitness{sigPub[i].Signature, sigPub[i].Pubkey})
 
 		} else {
 			emptyTrans.Vins[i].ScriptPubkeySignature = sigPub[i].encodeToScript(SigHashAll)
-- 
2.43.0


From aac7c53680c85b3b1acd2e0a62888ab6609a7347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:14 +0000
Subject: [PATCH 070/106] fix: btcLikeTxDriver: the callers unlock data is not
 written to

---
 btcLikeTxDriver/transaction.go | 28 ++++++++++++++++++----------
 btcLikeTxDriver/txStruct.go    |  7 ++++---
 2 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/btcLikeTxDriver/transaction.go b/btcLikeTxDriver/transaction.go
index 031d308..75d04af 100644
--- a/btcLikeTxDriver/transaction.go
+++ b/btcLikeTxDriver/transaction.go
@@ -181,6 +181,9 @@ func InsertSignatureIntoEmptyTransaction(txHex string, sigPub []SignaturePubkey,
 			emptyTrans.Witness = append(emptyTrans.Witness, TxWitness{sigPub[i].Signature, sigPub[i].Pubkey})
 		}
 	} else {
+		if len(sigPub) != len(emptyTrans.Vins) {
+			return "", errors.New("The number of transaction inputs and signatures are not match!")
+		}
 		for i := 0; i < len(emptyTrans.Vins); i++ {
 
 			if sigPub[i].Signature == nil || len(sigPub[i].Signature) != 64 {
@@ -190,13 +193,13 @@ func InsertSignatureIntoEmptyTransaction(txHex string, sigPub []SignaturePubkey,
 				return "", errors.New("Invalid pubkey data!")
 			}
 
-			// bech32 branch
-			if unlockData[i].RedeemScript == "" && strings.Index(unlockData[i].LockScript, "0014") == 0 {
-				unlockData[i].RedeemScript = unlockData[i].LockScript
-				unlockData[i].LockScript = "00"
+			lockBytes, err := hex.DecodeString(unlockData[i].LockScript)
+			if err != nil {
+				return "", errors.New("Invalid lock script!")
 			}
+			scriptType := checkScriptType(lockBytes)
 
-			if unlockData[i].RedeemScript == "" {
+			if scriptType == TypeP2PKH {
 
 				emptyTrans.Vins[i].ScriptPubkeySignature = sigPub[i].encodeToScript(SigHashAll)
 				if emptyTrans.Witness != nil {
@@ -209,13 +212,12 @@ func InsertSignatureIntoEmptyTransaction(txHex string, sigPub []SignaturePubkey,
 					}
 				}
 				emptyTrans.Witness = append(emptyTrans.Witness, TxWitness{sigPub[i].Signature, sigPub[i].Pubkey})
-				if unlockData[i].RedeemScript == "" {
-					return "", errors.New("Missing redeem script for a P2SH input!")
-				}
-
-				if unlockData[i].LockScript == "00" {
+				if scriptType == TypeBech32 {
 					emptyTrans.Vins[i].ScriptPubkeySignature = nil
 				} else {
+					if unlockData[i].RedeemScript == "" {
+						return "", errors.New("Missing redeem script for a P2SH input!")
+					}
 					redeem, err := hex.DecodeString(unlockData[i].RedeemScript)
 					if err != nil {
 						return "", errors.New("Invlalid redeem script!")
@@ -249,6 +251,9 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock) bool {
 		return false
 	}
 
+	//the redeem scripts used here are those of the transaction
+	unlockData = append([]TxUnlock{}, unlockData...)
+
 	var sigAndPub []SignaturePubkey
 	if signedTrans.Witness == nil {
 		for _, sp := range signedTrans.Vins {
@@ -271,6 +276,9 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock) bool {
 				if strings.Index(unlockData[i].LockScript, "0014") == 0 {
 					continue
 				}
+				if len(signedTrans.Vins[i].ScriptPubkeySignature) == 0 {
+					return false
+				}
 				unlockData[i].RedeemScript = hex.EncodeToString(signedTrans.Vins[i].ScriptPubkeySignature[1:])
 			}
 		}
diff --git a/btcLikeTxDriver/txStruct.go b/btcLikeTxDriver/txStruct.go
index 8000b71..d072fb4 100644
--- a/btcLikeTxDriver/txStruct.go
+++ b/btcLikeTxDriver/txStruct.go
@@ -399,10 +399,11 @@ func (t Transaction) getHashesForSig(unlockData []TxUnlock) ([][]byte, error) {
 
 	for i := 0; i < len(unlockData); i++ {
 		sigBytes := []byte{}
+		unlock := unlockData[i]
 		for j := 0; j < len(unlockData); j++ {
 			t.Vins[j].ScriptPubkeySignature = nil
 		}
-		lockBytes, err := hex.DecodeString(unlockData[i].LockScript)
+		lockBytes, err := hex.DecodeString(unlock.LockScript)
 		if err != nil {
 			return nil, errors.New("Invalid lockscript!")
 		}
@@ -414,9 +415,9 @@ func (t Transaction) getHashesForSig(unlockData []TxUnlock) ([][]byte, error) {
 		scriptType := checkScriptType(lockBytes)
 		if scriptType == TypeP2SH || scriptType == TypeBech32 {
 			if scriptType == TypeBech32 {
-				unlockData[i].RedeemScript = unlockData[i].LockScript
+				unlock.RedeemScript = unlock.LockScript
 			}
-			sigBytes, err = t.calcSegwitBytesForSig(unlockData[i], t.Vins[i].TxID, t.Vins[i].Vout, t.Vins[i].Sequence)
+			sigBytes, err = t.calcSegwitBytesForSig(unlock, t.Vins[i].TxID, t.Vins[i].Vout, t.Vins[i].Sequence)
 			if err != nil {
 				return nil, err
 			}
-- 
2.43.0


From f9e6783f3165254116f24dace13064aac24e9297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:14 +0000
Subject: [PATCH 071/106] fix: btcLikeTxDriver: malformed lock and redeem
 scripts are refused, not a crash

---
 btcLikeTxDriver/txStruct.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/btcLikeTxDriver/txStruct.go b/btcLikeTxDriver/txStruct.go
index d072fb4..680431f 100644
--- a/btcLikeTxDriver/txStruct.go
+++ b/btcLikeTxDriver/txStruct.go
@@ -294,18 +294,15 @@ func DecodeRawTransaction(txBytes []byte) (*Transaction, error) {
 }
 
 func isScriptHash(script []byte) bool {
-	if script[0] == OpCodeDup && script[1] == OpCodeHash160 && script[2] == 0x14 && script[23] == OpCodeEqualVerify && script[24] == OpCodeCheckSig {
-		return false
-	}
-	return true
+	return checkScriptType(script) != TypeP2PKH
 }
 
 func checkScriptType(script []byte) int {
-	if script[0] == OpCodeDup && script[1] == OpCodeHash160 && script[2] == 0x14 && script[23] == OpCodeEqualVerify && script[24] == OpCodeCheckSig {
+	if len(script) == 25 && script[0] == OpCodeDup && script[1] == OpCodeHash160 && script[2] == 0x14 && script[23] == OpCodeEqualVerify && script[24] == OpCodeCheckSig {
 		return TypeP2PKH
-	} else if script[0] == OpCodeHash160 && script[1] == 0x14 && script[22] == OpCodeEqual {
+	} else if len(script) == 23 && script[0] == OpCodeHash160 && script[1] == 0x14 && script[22] == OpCodeEqual {
 		return TypeP2SH
-	} else if script[0] == 0x00 && script[1] == 0x14 {
+	} else if len(script) == 22 && script[0] == 0x00 && script[1] == 0x14 {
 		return TypeBech32
 	} else {
 		return -1
@@ -341,6 +338,10 @@ func genScriptCodeFromRedeemScript(redeem string) ([]byte, error) {
 		return nil, errors.New("Invalid redeem script!")
 	}
 
+	if len(redeemBytes) < 2 {
+		return nil, errors.New("Invalid redeem script!")
+	}
+
 	ret := []byte{}
 	if redeemBytes[0] == 0x00 && redeemBytes[1] == 0x14 {
 		ret = redeemBytes[2:]
-- 
2.43.0


From ca9257e8992a54802c22a269a8423481f4431d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:14 +0000
Subject: [PATCH 072/106] fix: btcLikeTxDriver: VerifyRawTransaction checks
 that the signing keys own the inputs

---
 btcLikeTxDriver/transaction.go |  2 +-
 btcLikeTxDriver/txStruct.go    | 31 ++++++++++++++++++++++++++++---
 2 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/btcLikeTxDriver/transaction.go b/btcLikeTxDriver/transaction.go
index 75d04af..b2ef56c 100644
--- a/btcLikeTxDriver/transaction.go
+++ b/btcLikeTxDriver/transaction.go
@@ -291,5 +291,5 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock) bool {
 		return false
 	}
 
-	return verifyHashes(hashes, sigAndPub)
+	return verifyHashes(hashes, sigAndPub, unlockData)
 }
diff --git a/btcLikeTxDriver/txStruct.go b/btcLikeTxDriver/txStruct.go
index 680431f..424b122 100644
--- a/btcLikeTxDriver/txStruct.go
+++ b/btcLikeTxDriver/txStruct.go
@@ -1,6 +1,7 @@
 package btcLikeTxDriver
 
 import (
+	"bytes"
 	"encoding/hex"
 	"errors"
 
@@ -444,11 +445,35 @@ func (t Transaction) getHashesForSig(unlockData []TxUnlock) ([][]byte, error) {
 	return hashes, nil
 }
 
-func verifyHashes(hashes [][]byte, sigPub []SignaturePubkey) bool {
+//isOwner reports whether the lock script of the unlock data pays to the public key
+func isOwner(pubkey []byte, unlockData TxUnlock) bool {
+	keyHash := owcrypt.Hash(pubkey, 0, owcrypt.HASH_ALG_HASH160)
+	lockBytes, err := hex.DecodeString(unlockData.LockScript)
+	if err != nil {
+		return false
+	}
+	switch checkScriptType(lockBytes) {
+	case TypeP2PKH:
+		return bytes.Equal(lockBytes[3:23], keyHash)
+	case TypeBech32:
+		return bytes.Equal(lockBytes[2:22], keyHash)
+	case TypeP2SH:
+		redeem := append([]byte{0x00, 0x14}, keyHash...)
+		return unlockData.RedeemScript == hex.EncodeToString(redeem) && bytes.Equal(lockBytes[2:22], owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_HASH160))
+	}
+	return false
+}
 
+func verifyHashes(hashes [][]byte, sigPub []SignaturePubkey, unlockData []TxUnlock) bool {
+	if len(sigPub) != len(hashes) || len(sigPub) != len(unlockData) {
+		return false
+	}
 	for i := 0; i < len(sigPub); i++ {
-		pubkey := owcrypt.PointDecompress(sigPub[i].Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-		if owcrypt.Verify(pubkey, nil, hashes[i], sigPub[i].Signature, owcrypt.ECC_CURVE_SECP256K1) != owcrypt.SUCCESS {
+		pubkey := owcrypt.PointDecompress(sigPub[i].Pubkey, owcrypt.ECC_CURVE_SECP256K1)
+		if len(pubkey) != 65 || len(sigPub[i].Signature) != 64 || !isOwner(sigPub[i].Pubkey, unlockData[i]) {
+			return false
+		}
+		if owcrypt.Verify(pubkey[1:], nil, hashes[i], sigPub[i].Signature, owcrypt.ECC_CURVE_SECP256K1) != owcrypt.SUCCESS {
 			return false
 		}
 	}
-- 
2.43.0


From 8df8c81cf6a8eae3e7fb5bc071c8e254145dedd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:14 +0000
Subject: [PATCH 073/106] fix: btcLikeTxDriver: multisig inputs carry the
 number of signatures they require

---
 btcLikeTxDriver/multiSig.go    | 22 ++++++++++------------
 btcLikeTxDriver/transaction.go |  9 +++++++++
 btcLikeTxDriver/txStruct.go    |  6 ++++--
 3 files changed, 23 insertions(+), 14 deletions(-)

diff --git a/btcLikeTxDriver/multiSig.go b/btcLikeTxDriver/multiSig.go
index 733e00d..c443df9 100644
--- a/btcLikeTxDriver/multiSig.go
+++ b/btcLikeTxDriver/multiSig.go
@@ -11,7 +11,7 @@ func CreateMultiSig(required byte, pubkeys [][]byte) (string, string, error) {
 	if required < 1 {
 		return "", "", errors.New("A multisignature address must require at least one key to redeem!")
 	}
-	if required > byte(len(pubkeys)) {
+	if int(required) > len(pubkeys) {
 		return "", "", errors.New("Not enough keys supplied for a multisignature address to redeem!")
 	}
 	if len(pubkeys) > 16 {
@@ -49,13 +49,15 @@ func (t Transaction) isMultiSig() bool {
 	if len(t.Vins) != 1 {
 		return false
 	}
-	if t.Vins[0].ScriptPubkeySignature == nil {
-		return false
-	}
-	if t.Vins[0].ScriptPubkeySignature[len(t.Vins[0].ScriptPubkeySignature)-1] != OpCheckMultiSig {
+	return isMultiSigScript(t.Vins[0].ScriptPubkeySignature)
+}
+
+//isMultiSigScript tells a multisig redeem script from the scripts of single key inputs, which start with a push
+func isMultiSigScript(script []byte) bool {
+	if len(script) < 3 {
 		return false
 	}
-	return true
+	return script[0] >= OpCode_1 && script[0] < OpCode_1+16 && script[len(script)-1] == OpCheckMultiSig
 }
 
 func isMultiSig(lockScript, redeemScript string) bool {
@@ -67,7 +69,7 @@ func isMultiSig(lockScript, redeemScript string) bool {
 	if err != nil {
 		return false
 	}
-	if !(lockBytes[0] == OpCodeHash160 && lockBytes[1] == 0x14 || lockBytes[22] == OpCodeEqual) {
+	if checkScriptType(lockBytes) != TypeP2SH {
 		return false
 	}
 
@@ -76,11 +78,7 @@ func isMultiSig(lockScript, redeemScript string) bool {
 		return false
 	}
 
-	if len(redeemBytes) == 0 || redeemBytes[len(redeemBytes)-1] != OpCheckMultiSig {
-		return false
-	}
-	return true
-
+	return isMultiSigScript(redeemBytes)
 }
 
 func calcRedeemHash(redeem []byte) []byte {
diff --git a/btcLikeTxDriver/transaction.go b/btcLikeTxDriver/transaction.go
index b2ef56c..6db6081 100644
--- a/btcLikeTxDriver/transaction.go
+++ b/btcLikeTxDriver/transaction.go
@@ -175,9 +175,18 @@ func InsertSignatureIntoEmptyTransaction(txHex string, sigPub []SignaturePubkey,
 	}
 
 	if isMultiSig(unlockData[0].LockScript, unlockData[0].RedeemScript) {
+		if len(emptyTrans.Vins) != 1 {
+			return "", errors.New("A multisig transaction can have one input only!")
+		}
 		redeemBytes, _ := hex.DecodeString(unlockData[0].RedeemScript)
+		if len(sigPub) != int(redeemBytes[0]-OpCode_1+1) {
+			return "", errors.New("The number of signatures is not the one the multisig address requires!")
+		}
 		emptyTrans.Vins[0].ScriptPubkeySignature = redeemBytes
 		for i := 0; i < len(sigPub); i++ {
+			if len(sigPub[i].Signature) != 64 {
+				return "", errors.New("Invalid signature data!")
+			}
 			emptyTrans.Witness = append(emptyTrans.Witness, TxWitness{sigPub[i].Signature, sigPub[i].Pubkey})
 		}
 	} else {
diff --git a/btcLikeTxDriver/txStruct.go b/btcLikeTxDriver/txStruct.go
index 424b122..40cd927 100644
--- a/btcLikeTxDriver/txStruct.go
+++ b/btcLikeTxDriver/txStruct.go
@@ -83,13 +83,15 @@ func (t Transaction) encodeToBytes() ([]byte, error) {
 			ret = append(ret, out.lockScript...)
 		}
 
-		ret = append(ret, byte(0x04), 0x00)
+		//an empty element, the signatures and the redeem script
+		ret = append(ret, compactSize(len(t.Witness)+2)...)
+		ret = append(ret, 0x00)
 		for _, w := range t.Witness {
 			if w.Signature == nil {
 				return nil, errors.New("Miss signature data for a multisig transaction!")
 			} else {
 				sig := w.encodeToScript(SigHashAll)
-				sig = sig[:len(sig)-34]
+				sig = sig[:len(sig)-1-len(w.Pubkey)]
 				ret = append(ret, sig...)
 			}
 		}
-- 
2.43.0


From 021406dcbb491e5b8c1a38d8598d8842ea2497c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:21 +0000
Subject: [PATCH 074/106] fix: btcLikeTxDriver: VerifyRawTransaction expects
 signatures where the lock script wants them

---
 btcLikeTxDriver/transaction.go | 50 +++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 22 deletions(-)

diff --git a/btcLikeTxDriver/transaction.go b/btcLikeTxDriver/transaction.go
index 6db6081..341fdc2 100644
--- a/btcLikeTxDriver/transaction.go
+++ b/btcLikeTxDriver/transaction.go
@@ -3,7 +3,6 @@ package btcLikeTxDriver
 import (
 	"encoding/hex"
 	"errors"
-	"strings"
 )
 
 type Vin struct {
@@ -264,33 +263,40 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock) bool {
 	unlockData = append([]TxUnlock{}, unlockData...)
 
 	var sigAndPub []SignaturePubkey
-	if signedTrans.Witness == nil {
-		for _, sp := range signedTrans.Vins {
-			tmp, err := decodeFromScriptBytes(sp.ScriptPubkeySignature)
-			if err != nil {
+	for i, in := range signedTrans.Vins {
+		lockBytes, err := hex.DecodeString(unlockData[i].LockScript)
+		if err != nil {
+			return false
+		}
+		var witness TxWitness
+		if signedTrans.Witness != nil {
+			witness = signedTrans.Witness[i]
+		}
+
+		scriptType := checkScriptType(lockBytes)
+		if scriptType == TypeP2PKH {
+			tmp, err := decodeFromScriptBytes(in.ScriptPubkeySignature)
+			if err != nil || witness.Signature != nil {
 				return false
 			}
 			sigAndPub = append(sigAndPub, *tmp)
+			continue
 		}
-	} else {
-		for i := 0; i < len(signedTrans.Vins); i++ {
-			if signedTrans.Witness[i].Signature == nil {
-				tmp, err := decodeFromScriptBytes(signedTrans.Vins[i].ScriptPubkeySignature)
-				if err != nil {
-					return false
-				}
-				sigAndPub = append(sigAndPub, *tmp)
-			} else {
-				sigAndPub = append(sigAndPub, SignaturePubkey{signedTrans.Witness[i].Signature, signedTrans.Witness[i].Pubkey})
-				if strings.Index(unlockData[i].LockScript, "0014") == 0 {
-					continue
-				}
-				if len(signedTrans.Vins[i].ScriptPubkeySignature) == 0 {
-					return false
-				}
-				unlockData[i].RedeemScript = hex.EncodeToString(signedTrans.Vins[i].ScriptPubkeySignature[1:])
+
+		if witness.Signature == nil {
+			return false
+		}
+		if scriptType == TypeBech32 {
+			if len(in.ScriptPubkeySignature) != 0 {
+				return false
+			}
+		} else {
+			if len(in.ScriptPubkeySignature) != 23 || in.ScriptPubkeySignature[0] != 22 {
+				return false
 			}
+			unlockData[i].RedeemScript = hex.EncodeToString(in.ScriptPubkeySignature[1:])
 		}
+		sigAndPub = append(sigAndPub, SignaturePubkey{witness.Signature, witness.Pubkey})
 	}
 
 	signedTrans.Witness = nil
-- 
2.43.0


From 714ecbb006864a3fa84de8ec7fb6b27748766456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:15 +0000
Subject: [PATCH 075/106] fix: signed inputs whose signatures are not strictly
 DER encoded are refused

---
 aliencoinTransaction/txSigPub.go          |  4 ++--
 bitcoincashTransaction/SignaturePubkey.go | 15 +++++++++++----
 bitcoinsvTransaction/SignaturePubkey.go   | 15 +++++++++++----
 btcLikeTxDriver/signaturepubkey.go        |  8 ++++++--
 btcTransaction/SignaturePubkey.go         | 15 +++++++++++----
 cxcTransaction/SignaturePubkey.go         | 15 +++++++++++----
 hcTransaction/SignaturePubkey.go          | 15 +++++++++++----
 omniTransaction/SignaturePubkey.go        | 15 +++++++++++----
 vergeTransaction/txSigPub.go              |  4 ++--
 vollarTransaction/txSigPub.go             |  4 ++--
 zencashTransaction/SignaturePubkey.go     | 15 +++++++++++----
 11 files changed, 89 insertions(+), 36 deletions(-)

diff --git a/aliencoinTransaction/txSigPub.go b/aliencoinTransaction/txSigPub.go
index 3929388..d660cd4 100644
--- a/aliencoinTransaction/txSigPub.go
+++ b/aliencoinTransaction/txSigPub.go
@@ -146,7 +146,7 @@ func decodeFromScriptBytes(script []byte) (*SigPub, byte, error) {
 		if index+2 > limit {
 			return nil, 0, errors.New("Invalid script data!")
 		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
+		if script[index] != 0x00 || (script[index+1]&0x80 != 0x80) {
 			return nil, 0, errors.New("Invalid signature data!")
 		}
 	}
@@ -186,7 +186,7 @@ func decodeFromScriptBytes(script []byte) (*SigPub, byte, error) {
 		if index+2 > limit {
 			return nil, 0, errors.New("Invalid script data!")
 		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
+		if script[index] != 0x00 || (script[index+1]&0x80 != 0x80) {
 			return nil, 0, errors.New("Invalid signature data!")
 		}
 	}
diff --git a/bitcoincashTransaction/SignaturePubkey.go b/bitcoincashTransaction/SignaturePubkey.go
index 8ea7bf0..396b6e9 100644
--- a/bitcoincashTransaction/SignaturePubkey.go
+++ b/bitcoincashTransaction/SignaturePubkey.go
@@ -1,6 +1,7 @@
 package bitcoincashTransaction
 
 import (
+	"bytes"
 	"errors"
 	"math/big"
 
@@ -184,7 +185,7 @@ func decodeSignatureFromScript(script []byte) ([]byte, byte, error) {
 		if index+2 > limit {
 			return nil, 0, errors.New("Invalid script data!")
 		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
+		if script[index] != 0x00 || (script[index+1]&0x80 != 0x80) {
 			return nil, 0, errors.New("Invalid signature data!")
 		}
 	}
@@ -225,7 +226,7 @@ func decodeSignatureFromScript(script []byte) ([]byte, byte, error) {
 		if index+2 > limit {
 			return nil, 0, errors.New("Invalid script data!")
 		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
+		if script[index] != 0x00 || (script[index+1]&0x80 != 0x80) {
 			return nil, 0, errors.New("Invalid signature data!")
 		}
 	}
@@ -255,6 +256,9 @@ func decodeSignatureFromScript(script []byte) ([]byte, byte, error) {
 	if (rLen+sLen+4 != rsLen) || (rsLen+3 != sigLen) {
 		return nil, 0, errors.New("Invalid script data!")
 	}
+	if !bytes.Equal(SignaturePubkey{sig, nil}.encodeSignatureToScript(sigType), script) {
+		return nil, 0, errors.New("Invalid signature data!")
+	}
 	return sig, sigType, nil
 }
 
@@ -308,7 +312,7 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, byte, error) {
 		if index+2 > limit {
 			return nil, 0, errors.New("Invalid script data!")
 		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
+		if script[index] != 0x00 || (script[index+1]&0x80 != 0x80) {
 			return nil, 0, errors.New("Invalid signature data!")
 		}
 	}
@@ -348,7 +352,7 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, byte, error) {
 		if index+2 > limit {
 			return nil, 0, errors.New("Invalid script data!")
 		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
+		if script[index] != 0x00 || (script[index+1]&0x80 != 0x80) {
 			return nil, 0, errors.New("Invalid signature data!")
 		}
 	}
@@ -397,5 +401,8 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, byte, error) {
 	if index != len(script) {
 		return nil, 0, errors.New("Invalid transaction data!")
 	}
+	if !bytes.Equal(ret.encodeToScript(sigType), script) {
+		return nil, 0, errors.New("Invalid signature data!")
+	}
 	return &ret, sigType, nil
 }
diff --git a/bitcoinsvTransaction/SignaturePubkey.go b/bitcoinsvTransaction/SignaturePubkey.go
index fe4dcf3..4d861b5 100644
--- a/bitcoinsvTransaction/SignaturePubkey.go
+++ b/bitcoinsvTransaction/SignaturePubkey.go
@@ -1,6 +1,7 @@
 package bitcoinsvTransaction
 
 import (
+	"bytes"
 	"errors"
 	"math/big"
 
@@ -184,7 +185,7 @@ func decodeSignatureFromScript(script []byte) ([]byte, byte, error) {
 		if index+2 > limit {
 			return nil, 0, errors.New("Invalid script data!")
 		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
+		if script[index] != 0x00 || (script[index+1]&0x80 != 0x80) {
 			return nil, 0, errors.New("Invalid signature data!")
 		}
 	}
@@ -225,7 +226,7 @@ func decodeSignatureFromScript(script []byte) ([]byte, byte, error) {
 		if index+2 > limit {
 			return nil, 0, errors.New("Invalid script data!")
 		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
+		if script[index] != 0x00 || (script[index+1]&0x80 != 0x80) {
 			return nil, 0, errors.New("Invalid signature data!")
 		}
 	}
@@ -255,6 +256,9 @@ func decodeSignatureFromScript(script []byte) ([]byte, byte, error) {
 	if (rLen+sLen+4 != rsLen) || (rsLen+3 != sigLen) {
 		return nil, 0, errors.New("Invalid script data!")
 	}
+	if !bytes.Equal(SignaturePubkey{sig, nil}.encodeSignatureToScript(sigType), script) {
+		return nil, 0, errors.New("Invalid signature data!")
+	}
 	return sig, sigType, nil
 }
 
@@ -308,7 +312,7 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, byte, error) {
 		if index+2 > limit {
 			return nil, 0, errors.New("Invalid script data!")
 		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
+		if script[index] != 0x00 || (script[index+1]&0x80 != 0x80) {
 			return nil, 0, errors.New("Invalid signature data!")
 		}
 	}
@@ -348,7 +352,7 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, byte, error) {
 		if index+2 > limit {
 			return nil, 0, errors.New("Invalid script data!")
 		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
+		if script[index] != 0x00 || (script[index+1]&0x80 != 0x80) {
 			return nil, 0, errors.New("Invalid signature data!")
 		}
 	}
@@ -397,5 +401,8 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, byte, error) {
 	if index != len(script) {
 		return nil, 0, errors.New("Invalid transaction data!")
 	}
+	if !bytes.Equal(ret.encodeToScript(sigType), script) {
+		return nil, 0, errors.New("Invalid signature data!")
+	}
 	return &ret, sigType, nil
 }
diff --git a/btcLikeTxDriver/signaturepubkey.go b/btcLikeTxDriver/signaturepubkey.go
index b3d6067..7ee263b 100644
--- a/btcLikeTxDriver/signaturepubkey.go
+++ b/btcLikeTxDriver/signaturepubkey.go
@@ -1,6 +1,7 @@
 package btcLikeTxDriver
 
 import (
+	"bytes"
 	"errors"
 	"math/big"
 
@@ -151,7 +152,7 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, error) {
 		if index+2 > limit {
 			return nil, errors.New("Invalid script data!")
 		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
+		if script[index] != 0x00 || (script[index+1]&0x80 != 0x80) {
 			return nil, errors.New("Invalid signature data!")
 		}
 	}
@@ -191,7 +192,7 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, error) {
 		if index+2 > limit {
 			return nil, errors.New("Invalid script data!")
 		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
+		if script[index] != 0x00 || (script[index+1]&0x80 != 0x80) {
 			return nil, errors.New("Invalid signature data!")
 		}
 	}
@@ -242,5 +243,8 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, error) {
 	if index != len(script) {
 		return nil, errors.New("Invalid transaction data!")
 	}
+	if !bytes.Equal(ret.encodeToScript(SigHashAll), script) {
+		return nil, errors.New("Invalid signature data!")
+	}
 	return &ret, nil
 }
diff --git a/btcTransaction/SignaturePubkey.go b/btcTransaction/SignaturePubkey.go
index 29386ff..64aa1a4 100644
--- a/btcTransaction/SignaturePubkey.go
+++ b/btcTransaction/SignaturePubkey.go
@@ -1,6 +1,7 @@
 package btcTransaction
 
 import (
+	"bytes"
 	"errors"
 	"math/big"
 
@@ -184,7 +185,7 @@ func decodeSignatureFromScript(script []byte) ([]byte, byte, error) {
 		if index+2 > limit {
 			return nil, 0, errors.New("Invalid script data!")
 		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
+		if script[index] != 0x00 || (script[index+1]&0x80 != 0x80) {
 			return nil, 0, errors.New("Invalid signature data!")
 		}
 	}
@@ -225,7 +226,7 @@ func decodeSignatureFromScript(script []byte) ([]byte, byte, error) {
 		if index+2 > limit {
 			return nil, 0, errors.New("Invalid script data!")
 		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
+		if script[index] != 0x00 || (script[index+1]&0x80 != 0x80) {
 			return nil, 0, errors.New("Invalid signature data!")
 		}
 	}
@@ -255,6 +256,9 @@ func decodeSignatureFromScript(script []byte) ([]byte, byte, error) {
 	if (rLen+sLen+4 != rsLen) || (rsLen+3 != sigLen) {
 		return nil, 0, errors.New("Invalid script data!")
 	}
+	if !bytes.Equal(SignaturePubkey{sig, nil}.encodeSignatureToScript(sigType), script) {
+		return nil, 0, errors.New("Invalid signature data!")
+	}
 	return sig, sigType, nil
 }
 
@@ -308,7 +312,7 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, byte, error) {
 		if index+2 > limit {
 			return nil, 0, errors.New("Invalid script data!")
 		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
+		if script[index] != 0x00 || (script[index+1]&0x80 != 0x80) {
 			return nil, 0, errors.New("Invalid signature data!")
 		}
 	}
@@ -348,7 +352,7 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, byte, error) {
 		if index+2 > limit {
 			return nil, 0, errors.New("Invalid script data!")
 		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
+		if script[index] != 0x00 || (script[index+1]&0x80 != 0x80) {
 			return nil, 0, errors.New("Invalid signature data!")
 		}
 	}
@@ -397,5 +401,8 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, byte, error) {
 	if index != len(script) {
 		return nil, 0, errors.New("Invalid transaction data!")
 	}
+	if !bytes.Equal(ret.encodeToScript(sigType), script) {
+		return nil, 0, errors.New("Invalid signature data!")
+	}
 	return &ret, sigType, nil
 }
diff --git a/cxcTransaction/SignaturePubkey.go b/cxcTransaction/SignaturePubkey.go
index ed36317..19c3438 100644
--- a/cxcTransaction/SignaturePubkey.go
+++ b/cxcTransaction/SignaturePubkey.go
@@ -1,6 +1,7 @@
 package cxcTransaction
 
 import (
+	"bytes"
 	"errors"
 	"math/big"
 
@@ -184,7 +185,7 @@ func decodeSignatureFromScript(script []byte) ([]byte, byte, error) {
 		if index+2 > limit {
 			return nil, 0, errors.New("Invalid script data!")
 		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
+		if script[index] != 0x00 || (script[index+1]&0x80 != 0x80) {
 			return nil, 0, errors.New("Invalid signature data!")
 		}
 	}
@@ -225,7 +226,7 @@ func decodeSignatureFromScript(script []byte) ([]byte, byte, error) {
 		if index+2 > limit {
 			return nil, 0, errors.New("Invalid script data!")
 		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
+		if script[index] != 0x00 || (script[index+1]&0x80 != 0x80) {
 			return nil, 0, errors.New("Invalid signature data!")
 		}
 	}
@@ -255,6 +256,9 @@ func decodeSignatureFromScript(script []byte) ([]byte, byte, error) {
 	if (rLen+sLen+4 != rsLen) || (rsLen+3 != sigLen) {
 		return nil, 0, errors.New("Invalid script data!")
 	}
+	if !bytes.Equal(SignaturePubkey{sig, nil}.encodeSignatureToScript(sigType), script) {
+		return nil, 0, errors.New("Invalid signature data!")
+	}
 	return sig, sigType, nil
 }
 
@@ -308,7 +312,7 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, byte, error) {
 		if index+2 > limit {
 			return nil, 0, errors.New("Invalid script data!")
 		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
+		if script[index] != 0x00 || (script[index+1]&0x80 != 0x80) {
 			return nil, 0, errors.New("Invalid signature data!")
 		}
 	}
@@ -348,7 +352,7 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, byte, error) {
 		if index+2 > limit {
 			return nil, 0, errors.New("Invalid script data!")
 		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
+		if script[index] != 0x00 || (script[index+1]&0x80 != 0x80) {
 			return nil, 0, errors.New("Invalid signature data!")
 		}
 	}
@@ -397,5 +401,8 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, byte, error) {
 	if index != len(script) {
 		return nil, 0, errors.New("Invalid transaction data!")
 	}
+	if !bytes.Equal(ret.encodeToScript(sigType), script) {
+		return nil, 0, errors.New("Invalid signature data!")
+	}
 	return &ret, sigType, nil
 }
diff --git a/hcTransaction/SignaturePubkey.go b/hcTransaction/SignaturePubkey.go
index 388ec79..c48cd5f 100644
--- a/hcTransaction/SignaturePubkey.go
+++ b/hcTransaction/SignaturePubkey.go
@@ -1,6 +1,7 @@
 package hcTransaction
 
 import (
+	"bytes"
 	"errors"
 	"math/big"
 
@@ -185,7 +186,7 @@ func decodeSignatureFromScript(script []byte) ([]byte, byte, error) {
 		if index+2 > limit {
 			return nil, 0, errors.New("Invalid script data!")
 		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
+		if script[index] != 0x00 || (script[index+1]&0x80 != 0x80) {
 			return nil, 0, errors.New("Invalid signature data!")
 		}
 	}
@@ -226,7 +227,7 @@ func decodeSignatureFromScript(script []byte) ([]byte, byte, error) {
 		if index+2 > limit {
 			return nil, 0, errors.New("Invalid script data!")
 		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
+		if script[index] != 0x00 || (script[index+1]&0x80 != 0x80) {
 			return nil, 0, errors.New("Invalid signature data!")
 		}
 	}
@@ -256,6 +257,9 @@ func decodeSignatureFromScript(script []byte) ([]byte, byte, error) {
 	if (rLen+sLen+4 != rsLen) || (rsLen+3 != sigLen) {
 		return nil, 0, errors.New("Invalid script data!")
 	}
+	if !bytes.Equal(SignaturePubkey{sig, nil}.encodeSignatureToScript(sigType), script) {
+		return nil, 0, errors.New("Invalid signature data!")
+	}
 	return sig, sigType, nil
 }
 
@@ -309,7 +313,7 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, byte, error) {
 		if index+2 > limit {
 			return nil, 0, errors.New("Invalid script data!")
 		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
+		if script[index] != 0x00 || (script[index+1]&0x80 != 0x80) {
 			return nil, 0, errors.New("Invalid signature data!")
 		}
 	}
@@ -349,7 +353,7 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, byte, error) {
 		if index+2 > limit {
 			return nil, 0, errors.New("Invalid script data!")
 		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
+		if script[index] != 0x00 || (script[index+1]&0x80 != 0x80) {
 			return nil, 0, errors.New("Invalid signature data!")
 		}
 	}
@@ -398,5 +402,8 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, byte, error) {
 	if index != len(script) {
 		return nil, 0, errors.New("Invalid transaction data!")
 	}
+	if !bytes.Equal(ret.encodeToScript(sigType), script) {
+		return nil, 0, errors.New("Invalid signature data!")
+	}
 	return &ret, sigType, nil
 }
diff --git a/omniTransaction/SignaturePubkey.go b/omniTransaction/SignaturePubkey.go
index a80fa54..bd6f925 100644
--- a/omniTransaction/SignaturePubkey.go
+++ b/omniTransaction/SignaturePubkey.go
@@ -1,6 +1,7 @@
 package omniTransaction
 
 import (
+	"bytes"
 	"errors"
 	"math/big"
 
@@ -184,7 +185,7 @@ func decodeSignatureFromScript(script []byte) ([]byte, byte, error) {
 		if index+2 > limit {
 			return nil, 0, errors.New("Invalid script data!")
 		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
+		if script[index] != 0x00 || (script[index+1]&0x80 != 0x80) {
 			return nil, 0, errors.New("Invalid signature data!")
 		}
 	}
@@ -225,7 +226,7 @@ func decodeSignatureFromScript(script []byte) ([]byte, byte, error) {
 		if index+2 > limit {
 			return nil, 0, errors.New("Invalid script data!")
 		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
+		if script[index] != 0x00 || (script[index+1]&0x80 != 0x80) {
 			return nil, 0, errors.New("Invalid signature data!")
 		}
 	}
@@ -255,6 +256,9 @@ func decodeSignatureFromScript(script []byte) ([]byte, byte, error) {
 	if (rLen+sLen+4 != rsLen) || (rsLen+3 != sigLen) {
 		return nil, 0, errors.New("Invalid script data!")
 	}
+	if !bytes.Equal(SignaturePubkey{sig, nil}.encodeSignatureToScript(sigType), script) {
+		return nil, 0, errors.New("Invalid signature data!")
+	}
 	return sig, sigType, nil
 }
 
@@ -308,7 +312,7 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, byte, error) {
 		if index+2 > limit {
 			return nil, 0, errors.New("Invalid script data!")
 		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
+		if script[index] != 0x00 || (script[index+1]&0x80 != 0x80) {
 			return nil, 0, errors.New("Invalid signature data!")
 		}
 	}
@@ -348,7 +352,7 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, byte, error) {
 		if index+2 > limit {
 			return nil, 0, errors.New("Invalid script data!")
 		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
+		if script[index] != 0x00 || (script[index+1]&0x80 != 0x80) {
 			return nil, 0, errors.New("Invalid signature data!")
 		}
 	}
@@ -397,5 +401,8 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, byte, error) {
 	if index != len(script) {
 		return nil, 0, errors.New("Invalid transaction data!")
 	}
+	if !bytes.Equal(ret.encodeToScript(sigType), script) {
+		return nil, 0, errors.New("Invalid signature data!")
+	}
 	return &ret, sigType, nil
 }
diff --git a/vergeTransaction/txSigPub.go b/vergeTransaction/txSigPub.go
index 4b30fe3..9ce6253 100644
--- a/vergeTransaction/txSigPub.go
+++ b/vergeTransaction/txSigPub.go
@@ -146,7 +146,7 @@ func decodeFromScriptBytes(script []byte) (*SigPub, byte, error) {
 		if index+2 > limit {
 			return nil, 0, errors.New("Invalid script data!")
 		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
+		if script[index] != 0x00 || (script[index+1]&0x80 != 0x80) {
 			return nil, 0, errors.New("Invalid signature data!")
 		}
 	}
@@ -186,7 +186,7 @@ func decodeFromScriptBytes(script []byte) (*SigPub, byte, error) {
 		if index+2 > limit {
 			return nil, 0, errors.New("Invalid script data!")
 		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
+		if script[index] != 0x00 || (script[index+1]&0x80 != 0x80) {
 			return nil, 0, errors.New("Invalid signature data!")
 		}
 	}
diff --git a/vollarTransaction/txSigPub.go b/vollarTransaction/txSigPub.go
index c9bc69d..0727622 100644
--- a/vollarTransaction/txSigPub.go
+++ b/vollarTransaction/txSigPub.go
@@ -146,7 +146,7 @@ func decodeFromScriptBytes(script []byte) (*SigPub, byte, error) {
 		if index+2 > limit {
 			return nil, 0, errors.New("Invalid script data!")
 		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
+		if script[index] != 0x00 || (script[index+1]&0x80 != 0x80) {
 			return nil, 0, errors.New("Invalid signature data!")
 		}
 	}
@@ -186,7 +186,7 @@ func decodeFromScriptBytes(script []byte) (*SigPub, byte, error) {
 		if index+2 > limit {
 			return nil, 0, errors.New("Invalid script data!")
 		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
+		if script[index] != 0x00 || (script[index+1]&0x80 != 0x80) {
 			return nil, 0, errors.New("Invalid signature data!")
 		}
 	}
diff --git a/zencashTransaction/SignaturePubkey.go b/zencashTransaction/SignaturePubkey.go
index 6acdd54..c807d20 100644
--- a/zencashTransaction/SignaturePubkey.go
+++ b/zencashTransaction/SignaturePubkey.go
@@ -1,6 +1,7 @@
 package zencashTransaction
 
 import (
+	"bytes"
 	"errors"
 	"math/big"
 
@@ -184,7 +185,7 @@ func decodeSignatureFromScript(script []byte) ([]byte, byte, error) {
 		if index+2 > limit {
 			return nil, 0, errors.New("Invalid script data!")
 		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
+		if script[index] != 0x00 || (script[index+1]&0x80 != 0x80) {
 			return nil, 0, errors.New("Invalid signature data!")
 		}
 	}
@@ -225,7 +226,7 @@ func decodeSignatureFromScript(script []byte) ([]byte, byte, error) {
 		if index+2 > limit {
 			return nil, 0, errors.New("Invalid script data!")
 		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
+		if script[index] != 0x00 || (script[index+1]&0x80 != 0x80) {
 			return nil, 0, errors.New("Invalid signature data!")
 		}
 	}
@@ -255,6 +256,9 @@ func decodeSignatureFromScript(script []byte) ([]byte, byte, error) {
 	if (rLen+sLen+4 != rsLen) || (rsLen+3 != sigLen) {
 		return nil, 0, errors.New("Invalid script data!")
 	}
+	if !bytes.Equal(SignaturePubkey{sig, nil}.encodeSignatureToScript(sigType), script) {
+		return nil, 0, errors.New("Invalid signature data!")
+	}
 	return sig, sigType, nil
 }
 
@@ -308,7 +312,7 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, byte, error) {
 		if index+2 > limit {
 			return nil, 0, errors.New("Invalid script data!")
 		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
+		if script[index] != 0x00 || (script[index+1]&0x80 != 0x80) {
 			return nil, 0, errors.New("Invalid signature data!")
 		}
 	}
@@ -348,7 +352,7 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, byte, error) {
 		if index+2 > limit {
 			return nil, 0, errors.New("Invalid script data!")
 		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
+		if script[index] != 0x00 || (script[index+1]&0x80 != 0x80) {
 			return nil, 0, errors.New("Invalid signature data!")
 		}
 	}
@@ -397,5 +401,8 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, byte, error) {
 	if index != len(script) {
 		return nil, 0, errors.New("Invalid transaction data!")
 	}
+	if !bytes.Equal(ret.encodeToScript(sigType), script) {
+		return nil, 0, errors.New("Invalid signature data!")
+	}
 	return &ret, sigType, nil
 }
-- 
2.43.0


From 5c32c78f83dd772406ece59e57a1248ceecd4a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:36 +0000
Subject: [PATCH 076/106] fix: polkadot compact helpers wrote into the slice
 passed to them

ExtendLEBytes padded within the spare capacity of its argument and
BytesToCompactBytes shifted it in place; both returned the caller's own
buffer.
---
 polkadotTransaction/codec.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/polkadotTransaction/codec.go b/polkadotTransaction/codec.go
index 80b60dc..0ced565 100644
--- a/polkadotTransaction/codec.go
+++ b/polkadotTransaction/codec.go
@@ -20,13 +20,11 @@ func CompactLength(data uint32) int {
 
 func ExtendLEBytes(input []byte, length int) []byte {
 	diff := length - len(input)
-	if diff == 0 {
-		return input
-	}
+	ret := append([]byte{}, input...)
 	for i := 0; i < diff; i++ {
-		input = append(input, 0)
+		ret = append(ret, 0)
 	}
-	return input
+	return ret
 }
 
 //uint32ToLittleEndianBytes
@@ -48,7 +46,8 @@ func removeExtraLEBytes(input []byte) []byte {
 	return input[:index]
 }
 
-func BytesToCompactBytes(bytes []byte) (res []byte) {
+func BytesToCompactBytes(input []byte) (res []byte) {
+	bytes := append([]byte{}, input...)
 	lenOfBytes := len(bytes)
 	if lenOfBytes > 4 {
 		zeroByte := len(bytes) - 4
-- 
2.43.0


From ab84f8ac1b341d7f261886a2e10aa3472707daf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:36 +0000
Subject: [PATCH 077/106] fix: polkadot Encode panicked for zero

All bytes were taken for superfluous and the search ran off the slice.
---
 polkadotTransaction/codec.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polkadotTransaction/codec.go b/polkadotTransaction/codec.go
index 0ced565..15e5387 100644
--- a/polkadotTransaction/codec.go
+++ b/polkadotTransaction/codec.go
@@ -36,7 +36,7 @@ func uint32ToLittleEndianBytes(data uint32) []byte {
 
 func removeExtraLEBytes(input []byte) []byte {
 	index := len(input)
-	for {
+	for index > 1 {
 		if input[index-1] != 0 {
 			break
 		} else {
-- 
2.43.0


From fe8162ba90dbd3f8e7dc7d731799b58803101b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:36 +0000
Subject: [PATCH 078/106] fix: bytom Bech32Encode wrote the checksum behind the
 caller's data

---
 bytomTransaction/bech32.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bytomTransaction/bech32.go b/bytomTransaction/bech32.go
index eb15aaf..da51dfd 100644
--- a/bytomTransaction/bech32.go
+++ b/bytomTransaction/bech32.go
@@ -83,7 +83,7 @@ func Bech32Decode(bech string) (string, []byte, error) {
 func Bech32Encode(hrp string, data []byte) (string, error) {
 	// Calculate the checksum of the data and append it at the end.
 	checksum := bech32Checksum(hrp, data)
-	combined := append(data, checksum...)
+	combined := append(append([]byte{}, data...), checksum...)
 
 	// The resulting bech32 string is the concatenation of the hrp, the
 	// separator 1, data and checksum. Everything after the separator is
-- 
2.43.0


From 56b4f76e39d3288fbcd208ec45eab11438a962e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:36 +0000
Subject: [PATCH 079/106] fix: bech32m Encode wrote the checksum behind the
 caller's data

---
 addressEncoder/bech32m/bech32m.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/addressEncoder/bech32m/bech32m.go b/addressEncoder/bech32m/bech32m.go
index e7d3669..8a5dc44 100644
--- a/addressEncoder/bech32m/bech32m.go
+++ b/addressEncoder/bech32m/bech32m.go
@@ -81,7 +81,7 @@ func createChecksum(hrp string, data []byte, spec int) []byte {
 
 // Encode compute a Bech32 string given HRP and data values.
 func Encode(hrp string, data []byte, spec int, charset string) string {
-	combined := append(data, createChecksum(hrp, data, spec)...)
+	combined := append(append([]byte{}, data...), createChecksum(hrp, data, spec)...)
 	var ret bytes.Buffer
 	ret.WriteString(hrp)
 	ret.WriteString("1")
-- 
2.43.0


From 8f4b1b066a8d91412b46addeba4ffaba9c8e208f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:36 +0000
Subject: [PATCH 080/106] fix: CatData returned its argument when there was
 nothing to append

The result then changed with the caller's buffer.
---
 addressEncoder/addressEncoder.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/addressEncoder/addressEncoder.go b/addressEncoder/addressEncoder.go
index 62d804b..14cbe1b 100644
--- a/addressEncoder/addressEncoder.go
+++ b/addressEncoder/addressEncoder.go
@@ -70,9 +70,6 @@ func CatData(data1 []byte, data2 []byte) []byte {
 }
 
 func catData(data1 []byte, data2 []byte) []byte {
-	if data2 == nil {
-		return data1
-	}
 	return append(append(make([]byte, 0, len(data1)+len(data2)), data1...), data2...)
 }
 
-- 
2.43.0


From d1f8119c4daca4cac1a3b6f13558389e84eff482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:44 +0000
Subject: [PATCH 081/106] fix: btcTransaction: bech32 addresses of other
 witness versions or lengths are refused

---
 btcTransaction/bech32.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/btcTransaction/bech32.go b/btcTransaction/bech32.go
index fef7e78..f3236c4 100644
--- a/btcTransaction/bech32.go
+++ b/btcTransaction/bech32.go
@@ -214,6 +214,11 @@ func Bech32Decode(address string) ([]byte, error) {
 		return nil, ErrorInvalidAddress
 	}
 
+	//only programs of witness version 0 can be paid, they have 20 or 32 bytes
+	if size := len(value) - 6; value[0] != 0 || (size != 33 && size != 53) {
+		return nil, ErrorInvalidAddress
+	}
+
 	tmp := make([]int8, len(value)-6)
 	copy(tmp, value)
 
-- 
2.43.0


From b866c8d93a9a2ef0c4db67449ad911c8ec173624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:45 +0000
Subject: [PATCH 082/106] fix: omniTransaction: bech32 addresses of other
 witness versions or lengths are refused

---
 omniTransaction/bech32.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/omniTransaction/bech32.go b/omniTransaction/bech32.go
index 0495038..a3bb866 100644
--- a/omniTransaction/bech32.go
+++ b/omniTransaction/bech32.go
@@ -214,6 +214,11 @@ func Bech32Decode(address string) ([]byte, error) {
 		return nil, ErrorInvalidAddress
 	}
 
+	//only programs of witness version 0 can be paid, they have 20 or 32 bytes
+	if size := len(value) - 6; value[0] != 0 || (size != 33 && size != 53) {
+		return nil, ErrorInvalidAddress
+	}
+
 	tmp := make([]int8, len(value)-6)
 	copy(tmp, value)
 
-- 
2.43.0


From c45316be5127d34e22479702bda9d60d336017ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:45 +0000
Subject: [PATCH 083/106] fix: cxcTransaction: bech32 addresses of other
 witness versions or lengths are refused

---
 cxcTransaction/bech32.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cxcTransaction/bech32.go b/cxcTransaction/bech32.go
index c6af026..a8e4ab8 100644
--- a/cxcTransaction/bech32.go
+++ b/cxcTransaction/bech32.go
@@ -214,6 +214,11 @@ func Bech32Decode(address string) ([]byte, error) {
 		return nil, ErrorInvalidAddress
 	}
 
+	//only programs of witness version 0 can be paid, they have 20 or 32 bytes
+	if size := len(value) - 6; value[0] != 0 || (size != 33 && size != 53) {
+		return nil, ErrorInvalidAddress
+	}
+
 	tmp := make([]int8, len(value)-6)
 	copy(tmp, value)
 
-- 
2.43.0


From 4be36f466500d3930987e062372a23f5348aa7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:45 +0000
Subject: [PATCH 084/106] fix: hcTransaction: bech32 addresses of other witness
 versions or lengths are refused

---
 hcTransaction/bech32.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hcTransaction/bech32.go b/hcTransaction/bech32.go
index 8726bc8..86bd9a3 100644
--- a/hcTransaction/bech32.go
+++ b/hcTransaction/bech32.go
@@ -214,6 +214,11 @@ func Bech32Decode(address string) ([]byte, error) {
 		return nil, ErrorInvalidAddress
 	}
 
+	//only programs of witness version 0 can be paid, they have 20 or 32 bytes
+	if size := len(value) - 6; value[0] != 0 || (size != 33 && size != 53) {
+		return nil, ErrorInvalidAddress
+	}
+
 	tmp := make([]int8, len(value)-6)
 	copy(tmp, value)
 
-- 
2.43.0


From 44673c82b75c348338626e6f28c9e47deb5ea9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:45 +0000
Subject: [PATCH 085/106] fix: zencashTransaction: bech32 addresses of other
 witness versions or lengths are refused

---
 zencashTransaction/bech32.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/zencashTransaction/bech32.go b/zencashTransaction/bech32.go
index fe787c3..9a24d0c 100644
--- a/zencashTransaction/bech32.go
+++ b/zencashTransaction/bech32.go
@@ -214,6 +214,11 @@ func Bech32Decode(address string) ([]byte, error) {
 		return nil, ErrorInvalidAddress
 	}
 
+	//only programs of witness version 0 can be paid, they have 20 or 32 bytes
+	if size := len(value) - 6; value[0] != 0 || (size != 33 && size != 53) {
+		return nil, ErrorInvalidAddress
+	}
+
 	tmp := make([]int8, len(value)-6)
 	copy(tmp, value)
 
-- 
2.43.0


From 9d4145772ac38a9cb36a249d55089072fb4732c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:45 +0000
Subject: [PATCH 086/106] fix: btcLikeTxDriver: bech32 addresses of other
 witness versions or lengths are refused

---
 btcLikeTxDriver/bech32.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/btcLikeTxDriver/bech32.go b/btcLikeTxDriver/bech32.go
index adf462f..ff3df9b 100644
--- a/btcLikeTxDriver/bech32.go
+++ b/btcLikeTxDriver/bech32.go
@@ -214,6 +214,11 @@ func Bech32Decode(address string) ([]byte, error) {
 		return nil, ErrorInvalidAddress
 	}
 
+	//only programs of witness version 0 can be paid, they have 20 or 32 bytes
+	if size := len(value) - 6; value[0] != 0 || (size != 33 && size != 53) {
+		return nil, ErrorInvalidAddress
+	}
+
 	tmp := make([]int8, len(value)-6)
 	copy(tmp, value)
 
-- 
2.43.0


From 95dbc6d5d8ea18b0daf54e7884aaa8beb15ce537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:45 +0000
Subject: [PATCH 087/106] fix: bytomTransaction: addresses of other networks
 are refused

---
 bytomTransaction/transaction.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bytomTransaction/transaction.go b/bytomTransaction/transaction.go
index 23040b1..5553988 100644
--- a/bytomTransaction/transaction.go
+++ b/bytomTransaction/transaction.go
@@ -26,11 +26,11 @@ func CreateEmptyRawTransaction(vins []Vin, vouts []Vout, timeRange uint64, isTes
 
 	for _, addr := range vouts {
 		if isTestNet {
-			if !strings.HasPrefix(addr.Address, Bech32HRPSegwitTestNet) {
+			if !strings.HasPrefix(addr.Address, Bech32HRPSegwitTestNet+"1") {
 				return "", errors.New("Invalid address to send!")
 			}
 		} else {
-			if !strings.HasPrefix(addr.Address, Bech32HRPSegwitMainNet) {
+			if !strings.HasPrefix(addr.Address, Bech32HRPSegwitMainNet+"1") {
 				return "", errors.New("Invalid address to send!")
 			}
 		}
-- 
2.43.0


From 4ffe24483e2f6d7079a36e97145e0e0d9c810ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:45 +0000
Subject: [PATCH 088/106] fix: virtualeconomyTransaction: addresses of other
 networks are refused

---
 virtualeconomyTransaction/transaction.go | 2 +-
 virtualeconomyTransaction/txProfile.go   | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/virtualeconomyTransaction/transaction.go b/virtualeconomyTransaction/transaction.go
index 334319d..8c968c8 100644
--- a/virtualeconomyTransaction/transaction.go
+++ b/virtualeconomyTransaction/transaction.go
@@ -44,7 +44,7 @@ func CreateEmptyTransaction(ts TxStruct) (string, error) {
 	binary.BigEndian.PutUint16(feeScale, ts.FeeScale)
 	txBytes = append(txBytes, feeScale...)
 	recipient, err := DecodeCheck(ts.To)
-	if err != nil || len(recipient) != 26 {
+	if err != nil || len(recipient) != 26 || recipient[0] != AddressVersion || (recipient[1] != MainNetChain && recipient[1] != TestNetChain) {
 		return "", errors.New("Trying to send VSYS to an invalid address!")
 	}
 	txBytes = append(txBytes, recipient...)
diff --git a/virtualeconomyTransaction/txProfile.go b/virtualeconomyTransaction/txProfile.go
index 991d179..406c387 100644
--- a/virtualeconomyTransaction/txProfile.go
+++ b/virtualeconomyTransaction/txProfile.go
@@ -4,4 +4,7 @@ var (
 	TxTypeTransfer  = byte(2)
 	DefaultFeeScale = uint16(100)
 	DefaultFixedFee = uint64(10000000)
+	AddressVersion  = byte(5)
+	MainNetChain    = byte('M')
+	TestNetChain    = byte('T')
 )
-- 
2.43.0


From 07a34db9ff4ccb17241fc39e72f924b094682e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:45 +0000
Subject: [PATCH 089/106] fix: omniTransaction: omni payloads with a long memo
 are pushed with the right opcode

---
 omniTransaction/txOmni.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/omniTransaction/txOmni.go b/omniTransaction/txOmni.go
index 04b331d..304cfb9 100644
--- a/omniTransaction/txOmni.go
+++ b/omniTransaction/txOmni.go
@@ -53,6 +53,11 @@ func (os OmniStruct) getPayload() []byte {
 	}
 
 	payload = append(OmniPrefix[:], payload...)
-	payload = append([]byte{OpReturn, byte(len(payload))}, payload...)
-	return payload
+	push := []byte{OpReturn, byte(len(payload))}
+	if len(payload) > 0xFF {
+		push = []byte{OpReturn, OpPushData2, byte(len(payload)), byte(len(payload) >> 8)}
+	} else if len(payload) >= int(OpPushData1) {
+		push = []byte{OpReturn, OpPushData1, byte(len(payload))}
+	}
+	return append(push, payload...)
 }
-- 
2.43.0


From f5d15ecca42f8f22ba3e593fb4d78e4d8fdae59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:45 +0000
Subject: [PATCH 090/106] fix: omniTransaction: freezing tokens of an invalid
 address is refused

---
 omniTransaction/txOmni.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/omniTransaction/txOmni.go b/omniTransaction/txOmni.go
index 304cfb9..fb93a57 100644
--- a/omniTransaction/txOmni.go
+++ b/omniTransaction/txOmni.go
@@ -52,6 +52,10 @@ func (os OmniStruct) getPayload() []byte {
 		return nil
 	}
 
+	if len(payload) == 0 {
+		return nil
+	}
+
 	payload = append(OmniPrefix[:], payload...)
 	push := []byte{OpReturn, byte(len(payload))}
 	if len(payload) > 0xFF {
-- 
2.43.0


From 0f29a39ecca5361ebbb11a33f13c37a14180fd26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:45 +0000
Subject: [PATCH 091/106] fix: bitcoincashTransaction: omni payloads with a
 long memo are pushed with the right opcode

---
 bitcoincashTransaction/txOmni.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bitcoincashTransaction/txOmni.go b/bitcoincashTransaction/txOmni.go
index 53192ee..41817a6 100644
--- a/bitcoincashTransaction/txOmni.go
+++ b/bitcoincashTransaction/txOmni.go
@@ -53,7 +53,12 @@ func (os OmniStruct) getPayload() []byte {
 	}
 
 	payload = append(OmniPrefix[:], payload...)
-	payload = append([]byte{OpReturn, byte(len(payload))}, payload...)
-	return payload
+	push := []byte{OpReturn, byte(len(payload))}
+	if len(payload) > 0xFF {
+		push = []byte{OpReturn, OpPushData2, byte(len(payload)), byte(len(payload) >> 8)}
+	} else if len(payload) >= int(OpPushData1) {
+		push = []byte{OpReturn, OpPushData1, byte(len(payload))}
+	}
+	return append(push, payload...)
 }
 
-- 
2.43.0


From 02057b4b99bc235d5baf94151c1664c242d7daf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:45 +0000
Subject: [PATCH 092/106] fix: bitcoincashTransaction: freezing tokens of an
 invalid address is refused

---
 bitcoincashTransaction/txOmni.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bitcoincashTransaction/txOmni.go b/bitcoincashTransaction/txOmni.go
index 41817a6..f3fa9c7 100644
--- a/bitcoincashTransaction/txOmni.go
+++ b/bitcoincashTransaction/txOmni.go
@@ -52,6 +52,10 @@ func (os OmniStruct) getPayload() []byte {
 		return nil
 	}
 
+	if len(payload) == 0 {
+		return nil
+	}
+
 	payload = append(OmniPrefix[:], payload...)
 	push := []byte{OpReturn, byte(len(payload))}
 	if len(payload) > 0xFF {
-- 
2.43.0


From 55e1b935372e10ae6983b4562eca7620d1bac4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:45 +0000
Subject: [PATCH 093/106] fix: bitcoinsvTransaction: omni payloads with a long
 memo are pushed with the right opcode

---
 bitcoinsvTransaction/txOmni.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bitcoinsvTransaction/txOmni.go b/bitcoinsvTransaction/txOmni.go
index 8e70e79..aa930d1 100644
--- a/bitcoinsvTransaction/txOmni.go
+++ b/bitcoinsvTransaction/txOmni.go
@@ -53,7 +53,12 @@ func (os OmniStruct) getPayload() []byte {
 	}
 
 	payload = append(OmniPrefix[:], payload...)
-	payload = append([]byte{OpReturn, byte(len(payload))}, payload...)
-	return payload
+	push := []byte{OpReturn, byte(len(payload))}
+	if len(payload) > 0xFF {
+		push = []byte{OpReturn, OpPushData2, byte(len(payload)), byte(len(payload) >> 8)}
+	} else if len(payload) >= int(OpPushData1) {
+		push = []byte{OpReturn, OpPushData1, byte(len(payload))}
+	}
+	return append(push, payload...)
 }
 
-- 
2.43.0


From 7cf1823b8ad41e35f9cb68a16f028dc5b0f1211a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:45 +0000
Subject: [PATCH 094/106] fix: bitcoinsvTransaction: freezing tokens of an
 invalid address is refused

---
 bitcoinsvTransaction/txOmni.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bitcoinsvTransaction/txOmni.go b/bitcoinsvTransaction/txOmni.go
index aa930d1..337e4e5 100644
--- a/bitcoinsvTransaction/txOmni.go
+++ b/bitcoinsvTransaction/txOmni.go
@@ -52,6 +52,10 @@ func (os OmniStruct) getPayload() []byte {
 		return nil
 	}
 
+	if len(payload) == 0 {
+		return nil
+	}
+
 	payload = append(OmniPrefix[:], payload...)
 	push := []byte{OpReturn, byte(len(payload))}
 	if len(payload) > 0xFF {
-- 
2.43.0


From a38fb382ab74095cbdb543bc68c7a3b42bb284bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:53 +0000
Subject: [PATCH 095/106] fix: moacchainTransaction refuses signatures with r
 or s out of range instead of crashing on them

---
 moacchainTransaction/transaction.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/moacchainTransaction/transaction.go b/moacchainTransaction/transaction.go
index 2106068..f6b5816 100644
--- a/moacchainTransaction/transaction.go
+++ b/moacchainTransaction/transaction.go
@@ -50,6 +50,11 @@ func VerifyAndCombineRawTransaction(emptyTrans, signature, publicKey string, isT
 	if err != nil || len(sig) != 65 || (sig[64] != 0x01) && sig[64] != 0x00 {
 		return false, ""
 	}
+	order := new(big.Int).SetBytes(owcrypt.GetCurveOrder(owcrypt.ECC_CURVE_SECP256K1))
+	r, s := new(big.Int).SetBytes(sig[:32]), new(big.Int).SetBytes(sig[32:64])
+	if r.Sign() == 0 || s.Sign() == 0 || r.Cmp(order) >= 0 || s.Cmp(order) >= 0 {
+		return false, ""
+	}
 	pub, retCode := owcrypt.RecoverPubkey(sig, hash, owcrypt.ECC_CURVE_SECP256K1)
 	if retCode != owcrypt.SUCCESS || strings.ToLower(hex.EncodeToString(owcrypt.PointCompress(pub, owcrypt.ECC_CURVE_SECP256K1))) != strings.ToLower(publicKey) {
 		return false, ""
-- 
2.43.0


From 22f49185b40c940349471df8a4b140bc6793292e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:53 +0000
Subject: [PATCH 096/106] fix: addressEncoder: bech32 addresses with surplus
 groups, padding or another witness version are refused

---
 addressEncoder/addressEncoder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/addressEncoder/addressEncoder.go b/addressEncoder/addressEncoder.go
index 14cbe1b..d6a92e6 100644
--- a/addressEncoder/addressEncoder.go
+++ b/addressEncoder/addressEncoder.go
@@ -261,6 +261,10 @@ func AddressDecode(address string, addresstype AddressType) ([]byte, error) {
 		if len(ret) != 20 && len(ret) != 32 {
 			return nil, ErrorInvalidHashLength
 		}
+		// the decoder drops surplus bits, only the address of the decoded hash is valid
+		if bech32.Encode(addresstype.ChecksumType, addresstype.Alphabet, ret, addresstype.Prefix) != strings.ToLower(address) {
+			return nil, ErrorInvalidAddress
+		}
 		return ret, nil
 	}
 	if addresstype.EncodeType == "base32PolyMod" {
-- 
2.43.0


From 4b13357bc503ed0fbded41eea19d61230501324d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:53 +0000
Subject: [PATCH 097/106] fix: addressEncoder: EOS, Aeternity and Chia
 addresses of another length are refused

---
 addressEncoder/addressEncoder.go | 9 ++++++++-
 addressEncoder/aeternity.go      | 3 +++
 addressEncoder/eos.go            | 3 +++
 3 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/addressEncoder/addressEncoder.go b/addressEncoder/addressEncoder.go
index d6a92e6..98be53c 100644
--- a/addressEncoder/addressEncoder.go
+++ b/addressEncoder/addressEncoder.go
@@ -250,7 +250,14 @@ func AddressEncode(hash []byte, addresstype AddressType) string {
 func AddressDecode(address string, addresstype AddressType) ([]byte, error) {
 
 	if addresstype.EncodeType == "bech32m" {
-		return bech32m.Bech32mDecode(address, addresstype.ChecksumType, addresstype.Alphabet)
+		ret, err := bech32m.Bech32mDecode(address, addresstype.ChecksumType, addresstype.Alphabet)
+		if err != nil {
+			return nil, err
+		}
+		if len(ret) != addresstype.HashLen {
+			return nil, ErrorInvalidHashLength
+		}
+		return ret, nil
 	}
 
 	if addresstype.EncodeType == "bech32" {
diff --git a/addressEncoder/aeternity.go b/addressEncoder/aeternity.go
index 3149d57..afbad08 100644
--- a/addressEncoder/aeternity.go
+++ b/addressEncoder/aeternity.go
@@ -22,6 +22,9 @@ func decodeAE(pubKey string, addresstype AddressType) ([]byte, error) {
 	if verifyChecksum(ret, addresstype.ChecksumType) == false {
 		return nil, ErrorInvalidAddress
 	}
+	if len(ret)-4 != addresstype.HashLen {
+		return nil, ErrorInvalidHashLength
+	}
 
 	return ret[:len(ret)-4], nil
 }
diff --git a/addressEncoder/eos.go b/addressEncoder/eos.go
index 8214fb7..7a40963 100644
--- a/addressEncoder/eos.go
+++ b/addressEncoder/eos.go
@@ -32,6 +32,9 @@ func decodeEOS(pubKey string, addresstype AddressType) ([]byte, error) {
 	if verifyChecksum(ret, addresstype.ChecksumType) == false {
 		return nil, ErrorInvalidAddress
 	}
+	if len(ret)-4 != addresstype.HashLen {
+		return nil, ErrorInvalidHashLength
+	}
 
 	return ret[:len(ret)-4], nil
 }
-- 
2.43.0


From 4263b8de1a89c756711e2faf310b3bab7939e55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:32 +0000
Subject: [PATCH 098/106] fix: vergeTransaction: addresses whose hash is not 20
 bytes long are refused

---
 vergeTransaction/txOut.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vergeTransaction/txOut.go b/vergeTransaction/txOut.go
index 85b9481..3fd1c8b 100644
--- a/vergeTransaction/txOut.go
+++ b/vergeTransaction/txOut.go
@@ -22,6 +22,10 @@ func (out Vout) NewTxOut() (*TxOut, error) {
 		return nil, errors.New("Invalid address to send!")
 	}
 
+	if len(lockScript) != 0x14 {
+		return nil, errors.New("Invalid address to send!")
+	}
+
 	if prefix == p2pkhPrefix {
 		lockScript = append([]byte{0x19, 0x76, 0xa9, 0x14}, lockScript...)
 		lockScript = append(lockScript, []byte{0x88, 0xAC}...)
-- 
2.43.0


From de41478995377a5263f77219c85fe9f6eec87296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:32 +0000
Subject: [PATCH 099/106] fix: aliencoinTransaction: addresses whose hash is
 not 20 bytes long are refused

---
 aliencoinTransaction/txOut.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aliencoinTransaction/txOut.go b/aliencoinTransaction/txOut.go
index b4a79e0..06f8e5d 100644
--- a/aliencoinTransaction/txOut.go
+++ b/aliencoinTransaction/txOut.go
@@ -22,6 +22,10 @@ func (out Vout) NewTxOut() (*TxOut, error) {
 		return nil, errors.New("Invalid address to send!")
 	}
 
+	if len(lockScript) != 0x14 {
+		return nil, errors.New("Invalid address to send!")
+	}
+
 	if prefix == p2pkhPrefix {
 		lockScript = append([]byte{0x19, 0x76, 0xa9, 0x14}, lockScript...)
 		lockScript = append(lockScript, []byte{0x88, 0xAC}...)
-- 
2.43.0


From de08da9addf513939bbf22cb48f602b78d26c5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:32 +0000
Subject: [PATCH 100/106] fix: btcTransaction: addresses without a version byte
 are refused

---
 btcTransaction/txOut.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/btcTransaction/txOut.go b/btcTransaction/txOut.go
index 4923126..18d7cd8 100644
--- a/btcTransaction/txOut.go
+++ b/btcTransaction/txOut.go
@@ -46,7 +46,7 @@ func newTxOutForEmptyTrans(vout []Vout, addressPrefix AddressPrefix) ([]TxOut, e
 			return nil, errors.New("Invalid address to send!")
 		}
 
-		if len(hash) != 0x14 {
+		if len(prefix) == 0 || len(hash) != 0x14 {
 			return nil, errors.New("Invalid address to send!")
 		}
 
-- 
2.43.0


From 9525a16ff2be92bf6b8174acba4a2c9954a5a028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:26 +0000
Subject: [PATCH 101/106] fix: bitcoincashTransaction: addresses without a
 version byte are refused

---
 bitcoincashTransaction/txOut.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bitcoincashTransaction/txOut.go b/bitcoincashTransaction/txOut.go
index aaabfc5..d0e0338 100644
--- a/bitcoincashTransaction/txOut.go
+++ b/bitcoincashTransaction/txOut.go
@@ -29,7 +29,7 @@ func newTxOutForEmptyTrans(vout []Vout, addressPrefix AddressPrefix) ([]TxOut, e
 			return nil, errors.New("Invalid address to send!")
 		}
 
-		if len(hash) != 0x14 {
+		if len(prefix) == 0 || len(hash) != 0x14 {
 			return nil, errors.New("Invalid address to send!")
 		}
 
@@ -67,7 +67,7 @@ func newOmniTxOutForEmptyTrans(vout []Vout, omniDetail OmniStruct, addressPrefix
 			return nil, errors.New("Invalid address to send!")
 		}
 
-		if len(hash) != 0x14 {
+		if len(prefix) == 0 || len(hash) != 0x14 {
 			return nil, errors.New("Invalid address to send!")
 		}
 
-- 
2.43.0


From 730a7dbc4f69a3ce3d514911da2c02d149496c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:26 +0000
Subject: [PATCH 102/106] fix: bitcoinsvTransaction: addresses without a
 version byte are refused

---
 bitcoinsvTransaction/txOut.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bitcoinsvTransaction/txOut.go b/bitcoinsvTransaction/txOut.go
index 6ce9c17..aa2b69b 100644
--- a/bitcoinsvTransaction/txOut.go
+++ b/bitcoinsvTransaction/txOut.go
@@ -29,7 +29,7 @@ func newTxOutForEmptyTrans(vout []Vout, addressPrefix AddressPrefix) ([]TxOut, e
 			return nil, errors.New("Invalid address to send!")
 		}
 
-		if len(hash) != 0x14 {
+		if len(prefix) == 0 || len(hash) != 0x14 {
 			return nil, errors.New("Invalid address to send!")
 		}
 
@@ -67,7 +67,7 @@ func newOmniTxOutForEmptyTrans(vout []Vout, omniDetail OmniStruct, addressPrefix
 			return nil, errors.New("Invalid address to send!")
 		}
 
-		if len(hash) != 0x14 {
+		if len(prefix) == 0 || len(hash) != 0x14 {
 			return nil, errors.New("Invalid address to send!")
 		}
 
-- 
2.43.0


From 2a31529b56aa2677f32179b73a6506f918eac1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:44 +0000
Subject: [PATCH 103/106] fix: btcTransaction: short multisig scripts are not
 read as pay to pubkey hash

---
 btcTransaction/txStruct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/btcTransaction/txStruct.go b/btcTransaction/txStruct.go
index 3ada492..9211f04 100644
--- a/btcTransaction/txStruct.go
+++ b/btcTransaction/txStruct.go
@@ -180,7 +180,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 			}
 			tmpTxIn.scriptPub = append([]byte{0x23}, txBytes[index:index+scriptLen]...)
 			index += int(scriptLen)
-		} else if scriptLen <= 0x6C {
+		} else if scriptLen <= 0x6C && (index >= limit || txBytes[index] != 0x00) { // a multisig script starts with OP_0
 			tmpTxIn.inType = TypeP2PKH
 			if index+scriptLen > limit {
 				return nil, errors.New("Invalid transaction data length!")
-- 
2.43.0


From 491a71729db64abcfccd7ca1952039316e44f0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:44 +0000
Subject: [PATCH 104/106] fix: hcTransaction: short multisig scripts are not
 read as pay to pubkey hash

---
 hcTransaction/txStruct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hcTransaction/txStruct.go b/hcTransaction/txStruct.go
index 42f8c71..a30afc1 100644
--- a/hcTransaction/txStruct.go
+++ b/hcTransaction/txStruct.go
@@ -180,7 +180,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 			}
 			tmpTxIn.scriptPub = append([]byte{0x23}, txBytes[index:index+scriptLen]...)
 			index += int(scriptLen)
-		} else if scriptLen <= 0x6C {
+		} else if scriptLen <= 0x6C && (index >= limit || txBytes[index] != 0x00) { // a multisig script starts with OP_0
 			tmpTxIn.inType = TypeP2PKH
 			if index+scriptLen > limit {
 				return nil, errors.New("Invalid transaction data length!")
-- 
2.43.0


From ae34b53d00d6eee08991a596425b0f61bdedf743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:44 +0000
Subject: [PATCH 105/106] fix: cxcTransaction: short multisig scripts are not
 read as pay to pubkey hash

---
 cxcTransaction/txStruct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxcTransaction/txStruct.go b/cxcTransaction/txStruct.go
index e601835..bb4f80a 100644
--- a/cxcTransaction/txStruct.go
+++ b/cxcTransaction/txStruct.go
@@ -211,7 +211,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 			}
 			tmpTxIn.scriptPub = append([]byte{0x23}, txBytes[index:index+scriptLen]...)
 			index += int(scriptLen)
-		} else if scriptLen <= 0x6C {
+		} else if scriptLen <= 0x6C && (index >= limit || txBytes[index] != 0x00) { // a multisig script starts with OP_0
 			tmpTxIn.inType = TypeP2PKH
 			if index+scriptLen > limit {
 				return nil, errors.New("Invalid transaction data length!")
-- 
2.43.0


From 9081d247d52aa01f8a4f19befc332e5260bbdb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:44 +0000
Subject: [PATCH 106/106] fix: omniTransaction: short multisig scripts are not
 read as pay to pubkey hash

---
 omniTransaction/txStruct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omniTransaction/txStruct.go b/omniTransaction/txStruct.go
index 9123008..19a0b13 100644
--- a/omniTransaction/txStruct.go
+++ b/omniTransaction/txStruct.go
@@ -180,7 +180,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 			}
 			tmpTxIn.scriptPub = append([]byte{0x23}, txBytes[index:index+scriptLen]...)
 			index += int(scriptLen)
-		} else if scriptLen <= 0x6C {
+		} else if scriptLen <= 0x6C && (index >= limit || txBytes[index] != 0x00) { // a multisig script starts with OP_0
 			tmpTxIn.inType = TypeP2PKH
 			if index+scriptLen > limit {
 				return nil, errors.New("Invalid transaction data length!")
-- 
2.43.0

