From 218cc1efbfb53d359d81b0e0ddb3f3d7cf3f1f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:08 +0000
Subject: [PATCH 01/41] fix: address.Validate accepted line breaks and padding
 inside an address

---
 pkg/address/address_impl.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/address/address_impl.go b/pkg/address/address_impl.go
index 2df444f..86bee0f 100644
--- a/pkg/address/address_impl.go
+++ b/pkg/address/address_impl.go
@@ -190,6 +190,11 @@ func Validate(addr string) (Address, error) {
 	if err != nil {
 		return emptyA(), err
 	}
+	// b32.Decode skips line breaks and accepts padding, neither of which
+	// belongs in an address: all of the characters must have carried data
+	if len(h) != AddrLength*5/8 {
+		return emptyA(), newError("invalid characters in address")
+	}
 	// now check the two bytes of the checksum
 	if !b32.Check(h[:len(h)-2], h[len(h)-2:]) {
 		// uncomment these lines if you want to regenerate a key
-- 
2.43.0


From 929b03d63c6d6e07d515615c884f0df8f03be5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:20 +0000
Subject: [PATCH 02/41] fix: Address.UnmarshalText kept the caller's letter
 case, so equal addresses differed

---
 pkg/address/address.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pkg/address/address.go b/pkg/address/address.go
index d6dfd27..7e8becd 100644
--- a/pkg/address/address.go
+++ b/pkg/address/address.go
@@ -46,11 +46,10 @@ func (a Address) MarshalText() ([]byte, error) {
 
 // UnmarshalText implements encoding.TextUnmarshaler
 func (a *Address) UnmarshalText(text []byte) error {
-	s := string(text)
-	_, err := Validate(s)
+	v, err := Validate(string(text))
 	if err != nil {
 		return err
 	}
-	a.addr = s
+	*a = v
 	return nil
 }
-- 
2.43.0


From fcd685bbe4e2821e2a2cdcd3fc7609552bead0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:17 +0000
Subject: [PATCH 03/41] fix: words.ToBytes panicked on an empty list and
 accepted lists with no checksum

---
 pkg/words/words.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/words/words.go b/pkg/words/words.go
index a2c7907..19e97b7 100644
--- a/pkg/words/words.go
+++ b/pkg/words/words.go
@@ -199,6 +199,12 @@ func ToBytes(lang string, s []string) ([]byte, error) {
 	// because if this crc is correct it's more likely to be the right answer
 	for _, rb := range []int{resultbytes - 1, resultbytes} {
 		runlen := nbits - rb*8
+		// FromBytes always leaves between 4 and 14 bits for the crc; with fewer
+		// the check would mean little or nothing, and a list which would need
+		// more has another (shorter or longer) encoding
+		if rb < 0 || runlen < 4 || runlen > 14 {
+			continue
+		}
 		mask := (1 << uint(runlen)) - 1 // generate runlen 1 bits
 		ckcalc := int(crc8(result[:rb])) & mask
 		ckfound := getRun(rb*8, runlen, result)
-- 
2.43.0


From 9f39c979733ce88d116e295afbaab7611f1ba346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:27 +0000
Subject: [PATCH 04/41] fix: unmarshaling a key or signature with an unknown
 algorithm id panicked

---
 pkg/signature/algorithm.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/pkg/signature/algorithm.go b/pkg/signature/algorithm.go
index aae8e4a..88aaef3 100644
--- a/pkg/signature/algorithm.go
+++ b/pkg/signature/algorithm.go
@@ -84,6 +84,15 @@ func cloneAl(original Algorithm) Algorithm {
 	return reflect.New(val.Type()).Interface().(Algorithm)
 }
 
+// instantiate the algorithm which has the given ID
+func algorithmOf(id AlgorithmID) (Algorithm, error) {
+	example, known := idMap[id]
+	if !known {
+		return nil, errors.Errorf("unknown algorithm id %d", id)
+	}
+	return cloneAl(example), nil
+}
+
 // Unmarshal the serialized binary data into an Algorithm instance and
 // the originally supplied data.
 func unmarshal(serialized []byte) (al Algorithm, data []byte, err error) {
@@ -95,7 +104,11 @@ func unmarshal(serialized []byte) (al Algorithm, data []byte, err error) {
 	if len(leftovers) > 0 {
 		return nil, nil, errors.New("Leftovers present after deserialization")
 	}
-	return cloneAl(idMap[container.Algorithm]), container.Data, nil
+	al, err = algorithmOf(container.Algorithm)
+	if err != nil {
+		return nil, nil, err
+	}
+	return al, container.Data, nil
 }
 
 func unmarshalWithLeftovers(serialized []byte) (al Algorithm, data, leftovers []byte, err error) {
@@ -104,7 +117,11 @@ func unmarshalWithLeftovers(serialized []byte) (al Algorithm, data, leftovers []
 	if err != nil {
 		return nil, nil, nil, err
 	}
-	return cloneAl(idMap[container.Algorithm]), container.Data, leftovers, nil
+	al, err = algorithmOf(container.Algorithm)
+	if err != nil {
+		return nil, nil, nil, err
+	}
+	return al, container.Data, leftovers, nil
 }
 
 // Generate a high-level keypair
-- 
2.43.0


From 550917da672ce22a8b0e4a0a841bc44b7b9ac13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:28 +0000
Subject: [PATCH 05/41] fix: Signature.Unmarshal panicked on malformed input

---
 pkg/signature/signature.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/signature/signature.go b/pkg/signature/signature.go
index 303898d..3edb6b3 100644
--- a/pkg/signature/signature.go
+++ b/pkg/signature/signature.go
@@ -64,8 +64,11 @@ func (signature Signature) Marshal() (serialized []byte, err error) {
 // Unmarshal unmarshals the serialized binary data into the supplied signature instance
 func (signature *Signature) Unmarshal(serialized []byte) error {
 	al, b, err := unmarshal(serialized)
+	if err != nil {
+		return err
+	}
 	ss := al.SignatureSize()
-	if err == nil && ss >= 0 && len(b) != ss {
+	if ss >= 0 && len(b) != ss {
 		err = fmt.Errorf("Wrong size signature: expect len %d, have %d", al.SignatureSize(), len(b))
 	}
 	if err == nil {
-- 
2.43.0


From ca61a69c6e03a32eafc678973b3ba701ce2ace95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:29 +0000
Subject: [PATCH 06/41] fix: Signature.UnmarshalMsg accepted signatures of the
 wrong size, which Unmarshal refuses

---
 pkg/signature/signature.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/signature/signature.go b/pkg/signature/signature.go
index 3edb6b3..6506d0a 100644
--- a/pkg/signature/signature.go
+++ b/pkg/signature/signature.go
@@ -97,6 +97,13 @@ func (signature *Signature) UnmarshalMsg(in []byte) (leftover []byte, err error)
 	var al Algorithm
 	var b []byte
 	al, b, leftover, err = unmarshalWithLeftovers(in)
+	if err != nil {
+		return
+	}
+	ss := al.SignatureSize()
+	if ss >= 0 && len(b) != ss {
+		err = fmt.Errorf("Wrong size signature: expect len %d, have %d", ss, len(b))
+	}
 	if err == nil {
 		signature.algorithm = al
 		signature.data = b
-- 
2.43.0


From 0454ab81b18c5cea67094d9bd37aa72c7de777cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:49 +0000
Subject: [PATCH 07/41] fix: parsing key text shorter than its prefix panicked

---
 pkg/signature/private_key.go | 3 +++
 pkg/signature/public_key.go  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/pkg/signature/private_key.go b/pkg/signature/private_key.go
index e449d03..0779d7e 100644
--- a/pkg/signature/private_key.go
+++ b/pkg/signature/private_key.go
@@ -124,6 +124,9 @@ func (key PrivateKey) MarshalText() ([]byte, error) {
 func (key *PrivateKey) UnmarshalText(text []byte) error {
 	expectPrefix := []byte(PrivateKeyPrefix)
 	lep := len(expectPrefix)
+	if len(text) < lep {
+		return fmt.Errorf("private key must begin with %q; got %q", PrivateKeyPrefix, text)
+	}
 	if !bytes.Equal(expectPrefix, text[:lep]) {
 		return fmt.Errorf("private key must begin with %q; got %q", PrivateKeyPrefix, text[:lep])
 	}
diff --git a/pkg/signature/public_key.go b/pkg/signature/public_key.go
index 1378637..aa8a83c 100644
--- a/pkg/signature/public_key.go
+++ b/pkg/signature/public_key.go
@@ -136,6 +136,9 @@ func (key PublicKey) MarshalText() ([]byte, error) {
 func (key *PublicKey) UnmarshalText(text []byte) error {
 	expectPrefix := []byte(PublicKeyPrefix)
 	lep := len(expectPrefix)
+	if len(text) < lep {
+		return fmt.Errorf("public key must begin with %q; got %q", PublicKeyPrefix, text)
+	}
 	if !bytes.Equal(expectPrefix, text[:lep]) {
 		return fmt.Errorf("public key must begin with %q; got %q", PublicKeyPrefix, text[:lep])
 	}
-- 
2.43.0


From e8df0d4ba6431ce77d47499b41ca16a397a181de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:50 +0000
Subject: [PATCH 08/41] fix: unmarshaling a key without data kept the
 receiver's previous key bytes

---
 pkg/signature/keybase.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/signature/keybase.go b/pkg/signature/keybase.go
index 32f386a..b8f54c3 100644
--- a/pkg/signature/keybase.go
+++ b/pkg/signature/keybase.go
@@ -54,6 +54,8 @@ func (key keyBase) pack() ([]byte, error) {
 }
 
 func (key *keyBase) unpack(data []byte) error {
+	// nothing of what the receiver held before may survive
+	key.key, key.extra = nil, nil
 	if len(data) == 0 {
 		return nil
 	}
-- 
2.43.0


From 924a9e5069b2508fb8187ec6e1320a94cc2e206f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:51 +0000
Subject: [PATCH 09/41] fix: CheckChecksum trusted the claimed checksum width,
 accepting empty checksums and panicking on wide ones

---
 pkg/signature/checksum.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/signature/checksum.go b/pkg/signature/checksum.go
index 683711a..bc9805a 100644
--- a/pkg/signature/checksum.go
+++ b/pkg/signature/checksum.go
@@ -85,6 +85,12 @@ func CheckChecksum(checked []byte) (message []byte, checksumOk bool) {
 		return nil, false
 	}
 	message = checked[1:end]
+	// AddChecksum leaves no choice of the width: any other claim is corrupt,
+	// and might leave too little of a checksum to mean anything, or more than
+	// there is
+	if n != checksumWidth(len(message)) {
+		return nil, false
+	}
 
 	sumActual := checked[end:]
 	sumExpect := cksumN(message, n)
-- 
2.43.0


From 51125ca37e812c9883e7ba9c19e9d5a86cfff51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:52 +0000
Subject: [PATCH 10/41] fix: a zero key which had been through serialization
 was not IsZero

---
 pkg/signature/keybase.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/signature/keybase.go b/pkg/signature/keybase.go
index b8f54c3..1b7c5fe 100644
--- a/pkg/signature/keybase.go
+++ b/pkg/signature/keybase.go
@@ -239,5 +239,5 @@ func (key *keyBase) Zeroize() {
 
 // IsZero is true when this key is the zero value
 func (key keyBase) IsZero() bool {
-	return (key.algorithm == nil || key.algorithm == Null) && len(key.key) == 0 && len(key.extra) == 0
+	return SameAlgorithm(key.algorithm, Null) && len(key.key) == 0 && len(key.extra) == 0
 }
-- 
2.43.0


From 119801c4ee8975531448acf7e8fae8d4f89449fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:54 +0000
Subject: [PATCH 11/41] fix: Msgsize of keys with extra bytes was not an upper
 bound

---
 pkg/signature/keybase.go     | 3 ++-
 pkg/signature/private_key.go | 3 ++-
 pkg/signature/public_key.go  | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/pkg/signature/keybase.go b/pkg/signature/keybase.go
index 1b7c5fe..52a47a1 100644
--- a/pkg/signature/keybase.go
+++ b/pkg/signature/keybase.go
@@ -133,7 +133,8 @@ func (key *keyBase) UnmarshalMsg(in []byte) (leftover []byte, err error) {
 // as fundamentally a keyBase gets serialized as an IdentifiedData, and so should
 // have the same size.
 func (key *keyBase) Msgsize() (s int) {
-	s = 1 + msgp.Uint8Size + msgp.BytesPrefixSize + len(key.key)
+	// the key's bytes travel with a byte of length, and the extra bytes
+	s = 1 + msgp.Uint8Size + msgp.BytesPrefixSize + 1 + len(key.key) + len(key.extra)
 	return
 }
 
diff --git a/pkg/signature/private_key.go b/pkg/signature/private_key.go
index 0779d7e..8f3a72d 100644
--- a/pkg/signature/private_key.go
+++ b/pkg/signature/private_key.go
@@ -106,7 +106,8 @@ func (key *PrivateKey) UnmarshalMsg(in []byte) (leftover []byte, err error) {
 // as fundamentally a PrivateKey gets serialized as an IdentifiedData, and so should
 // have the same size.
 func (key *PrivateKey) Msgsize() (s int) {
-	s = 1 + msgp.Uint8Size + msgp.BytesPrefixSize + len(key.key)
+	// the key's bytes travel with a byte of length, and the extra bytes
+	s = 1 + msgp.Uint8Size + msgp.BytesPrefixSize + 1 + len(key.key) + len(key.extra)
 	return
 }
 
diff --git a/pkg/signature/public_key.go b/pkg/signature/public_key.go
index aa8a83c..1e7e146 100644
--- a/pkg/signature/public_key.go
+++ b/pkg/signature/public_key.go
@@ -118,7 +118,8 @@ func (key *PublicKey) UnmarshalMsg(in []byte) (leftover []byte, err error) {
 // as fundamentally a PublicKey gets serialized as an IdentifiedData, and so should
 // have the same size.
 func (key *PublicKey) Msgsize() (s int) {
-	s = 1 + msgp.Uint8Size + msgp.BytesPrefixSize + len(key.key)
+	// the key's bytes travel with a byte of length, and the extra bytes
+	s = 1 + msgp.Uint8Size + msgp.BytesPrefixSize + 1 + len(key.key) + len(key.extra)
 	return
 }
 
-- 
2.43.0


From 6e959a5f6bd11c23fa43a9615551a3e1034e0537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:23 +0000
Subject: [PATCH 12/41] fix: HardenedChild of an index of 2^31 or more gave a
 non-hardened child, even of a public key

---
 pkg/key/extendedkey.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/key/extendedkey.go b/pkg/key/extendedkey.go
index e627331..4021dae 100644
--- a/pkg/key/extendedkey.go
+++ b/pkg/key/extendedkey.go
@@ -77,6 +77,10 @@ var (
 	// increment to the next index.
 	ErrInvalidChild = errors.New("the extended key at this index is invalid")
 
+	// ErrHardenedIndexTooLarge describes an error in which the index of a
+	// hardened child is beyond the 2^31 hardened children which a key has.
+	ErrHardenedIndexTooLarge = errors.New("hardened child index must be less than 2^31")
+
 	// ErrUnusableSeed describes an error in which the provided seed is not
 	// usable due to the derived key falling outside of the valid range for
 	// secp256k1 private keys.  This error indicates the caller must choose
@@ -399,6 +403,10 @@ func (k *ExtendedKey) Public() (*ExtendedKey, error) {
 // A HardenedChild is guaranteed to have been derived from a private key.
 // It is an error if the given key is already a hardened key.
 func (k *ExtendedKey) HardenedChild(n uint32) (*ExtendedKey, error) {
+	// n + HardenedKeyStart would wrap around to a non-hardened child
+	if n >= HardenedKeyStart {
+		return nil, ErrHardenedIndexTooLarge
+	}
 	ndx := n + HardenedKeyStart
 	nk, err := k.Child(ndx)
 	return nk, errors.Wrap(err, "could not get child key")
-- 
2.43.0


From ba2678932a609da538bcbc39e6145481f598ce18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:25 +0000
Subject: [PATCH 13/41] fix: an ExtendedKey loaded into a used one kept a
 zeroed public key

---
 pkg/key/extendedkey.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/key/extendedkey.go b/pkg/key/extendedkey.go
index 4021dae..097cf7a 100644
--- a/pkg/key/extendedkey.go
+++ b/pkg/key/extendedkey.go
@@ -524,6 +524,8 @@ func (k *ExtendedKey) Zero() {
 	zero(k.chainCode)
 	zero(k.parentFP)
 	k.key = nil
+	// the memoized public key must not outlive the key it was computed from
+	k.pubKey = nil
 	k.depth = 0
 	k.childNum = 0
 	k.isPrivate = false
-- 
2.43.0


From 5ca17ffd2a870fe72752a619908f718efc13af31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:40 +0000
Subject: [PATCH 14/41] fix: zeroing an ExtendedKey destroyed the public and
 signature keys made from it

---
 pkg/key/extendedkey.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/pkg/key/extendedkey.go b/pkg/key/extendedkey.go
index 097cf7a..fb8f87a 100644
--- a/pkg/key/extendedkey.go
+++ b/pkg/key/extendedkey.go
@@ -393,7 +393,8 @@ func (k *ExtendedKey) Public() (*ExtendedKey, error) {
 	// key will simply be the pubkey of the current extended private key.
 	//
 	// This is the function N((k,c)) -> (K, c) from [BIP32].
-	return NewExtendedKey(k.PubKeyBytes(), k.chainCode, k.parentFP,
+	// It gets copies, as zeroing one key must not affect the other.
+	return NewExtendedKey(copyOf(k.PubKeyBytes()), copyOf(k.chainCode), copyOf(k.parentFP),
 		k.depth, k.childNum, false), nil
 }
 
@@ -498,9 +499,9 @@ func (k *ExtendedKey) parseExtra(data []byte) error {
 		return errors.New("cannot parseExtra: too few bytes in data")
 	}
 	k.depth = data[0]
-	k.parentFP = data[1:4]
+	k.parentFP = copyOf(data[1:4])
 	k.childNum = binary.BigEndian.Uint32(data[4:8])
-	k.chainCode = data[8:40]
+	k.chainCode = copyOf(data[8:40])
 
 	return nil
 }
@@ -514,6 +515,11 @@ func zero(b []byte) {
 	}
 }
 
+// copyOf copies the bytes, so that two keys never share what Zero clears
+func copyOf(b []byte) []byte {
+	return append([]byte(nil), b...)
+}
+
 // Zero manually clears all fields and bytes in the extended key.  This can be
 // used to explicitly clear key material from memory for enhanced security
 // against memory scraping.  This function only clears this particular key and
@@ -579,7 +585,7 @@ func (k *ExtendedKey) FromSignatureKey(key signature.Key) (err error) {
 	}
 
 	k.isPrivate = signature.IsPrivate(key)
-	k.key = key.KeyBytes()
+	k.key = copyOf(key.KeyBytes())
 	err = k.parseExtra(key.ExtraBytes())
 	if err != nil {
 		return errors.Wrap(err, "could not parse extra")
@@ -600,11 +606,11 @@ func FromSignatureKey(key signature.Key) (ek *ExtendedKey, err error) {
 // AsSignatureKey converts this ExtendedKey into a signature.Key instance
 func (k ExtendedKey) AsSignatureKey() (signature.Key, error) {
 	if k.isPrivate {
-		priv, err := signature.RawPrivateKey(signature.Secp256k1, k.key, k.extra())
+		priv, err := signature.RawPrivateKey(signature.Secp256k1, copyOf(k.key), k.extra())
 		err = errors.Wrap(err, "could not convert private key")
 		return priv, err
 	}
-	pub, err := signature.RawPublicKey(signature.Secp256k1, k.key, k.extra())
+	pub, err := signature.RawPublicKey(signature.Secp256k1, copyOf(k.key), k.extra())
 	err = errors.Wrap(err, "could not convert public key")
 	return pub, err
 }
-- 
2.43.0


From 841156528bed0600ded2494d45ef01445b153af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:16 +0000
Subject: [PATCH 15/41] fix: verifying a zero Signature panicked

---
 pkg/signature/id_map.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/signature/id_map.go b/pkg/signature/id_map.go
index 5e81ee5..19c55df 100644
--- a/pkg/signature/id_map.go
+++ b/pkg/signature/id_map.go
@@ -71,6 +71,10 @@ func buildNameMap() {
 
 // NameOf returns the name of an Algorithm
 func NameOf(al Algorithm) string {
+	// if the algorithm is nil, then it's the Null algorithm
+	if al == nil {
+		al = Null
+	}
 	ty := reflect.TypeOf(al)
 	// arbitrary-depth dereference
 	for ty.Kind() == reflect.Interface || ty.Kind() == reflect.Ptr {
-- 
2.43.0


From 05e043eb2acc5fba626c7f51bbec59862af76fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:52 +0000
Subject: [PATCH 16/41] fix: algorithms registered by pointer could not be
 serialized

---
 pkg/signature/id_map.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/signature/id_map.go b/pkg/signature/id_map.go
index 19c55df..5bd2cdf 100644
--- a/pkg/signature/id_map.go
+++ b/pkg/signature/id_map.go
@@ -65,7 +65,8 @@ func buildNameMap() {
 	var example Algorithm
 	idNameMap = make(map[string]AlgorithmID)
 	for id, example = range idMap {
-		idNameMap[reflect.TypeOf(example).Name()] = id
+		// NameOf, as algorithms may be registered by pointer
+		idNameMap[NameOf(example)] = id
 	}
 }
 
-- 
2.43.0


From 5f3b198925ccc03effac2e83908db16cd0e1762a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:53 +0000
Subject: [PATCH 17/41] fix: registering an algorithm name under a second ID
 made serialization of both random

---
 pkg/signature/id_map.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/signature/id_map.go b/pkg/signature/id_map.go
index 5bd2cdf..f79de4c 100644
--- a/pkg/signature/id_map.go
+++ b/pkg/signature/id_map.go
@@ -53,6 +53,11 @@ func RegisterAlgorithm(id AlgorithmID, al Algorithm) error {
 			return fmt.Errorf("ID %d already in use by %s", id, existingName)
 		}
 	}
+	// algorithms are identified by name: with one name under two IDs,
+	// either of them would be used to serialize, at random
+	if otherID, exists := idNameMap[NameOf(al)]; exists && otherID != id {
+		return fmt.Errorf("algorithm %s already in use with ID %d", NameOf(al), otherID)
+	}
 
 	idMap[id] = al
 	buildNameMap()
-- 
2.43.0


From 8cba0dea07fb1ba4ff0b7d4299a8cc540cebd152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:14 +0000
Subject: [PATCH 18/41] fix: a wasm call without arguments or with a BigInt
 argument panicked, stopping the module

---
 cmd/keyaddr/helpers.go | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/cmd/keyaddr/helpers.go b/cmd/keyaddr/helpers.go
index 85ecbb4..ee9100e 100644
--- a/cmd/keyaddr/helpers.go
+++ b/cmd/keyaddr/helpers.go
@@ -24,8 +24,11 @@ import (
 func handleArgs(args []js.Value, expected int, source string) (js.Value, []js.Value, error) {
 
 	// check that callback is a function
-	cb := args[len(args)-1]
-	if cb.Type() != js.TypeFunction {
+	var cb js.Value
+	if len(args) > 0 {
+		cb = args[len(args)-1]
+	}
+	if typ, ok := typeOf(cb); !ok || typ != js.TypeFunction {
 		msg := fmt.Sprintf("couldn't parse %s arguments: last argument must be a callback function.", source)
 		dispatchError(msg)
 		return js.Value{}, []js.Value{}, errors.New(msg)
@@ -40,9 +43,27 @@ func handleArgs(args []js.Value, expected int, source string) (js.Value, []js.Va
 	}
 
 	remainder := args[:len(args)-1]
+	for _, arg := range remainder {
+		if _, ok := typeOf(arg); !ok {
+			msg := fmt.Sprintf("couldn't parse %s arguments: unsupported type of argument", source)
+			cb.Invoke(msg, nil)
+			return js.Value{}, []js.Value{}, errors.New(msg)
+		}
+	}
 	return cb, remainder, nil
 }
 
+// typeOf returns the type of a value. ok is false for the types which syscall/js doesn't
+// know (BigInt): most uses of their values panic.
+func typeOf(v js.Value) (typ js.Type, ok bool) {
+	defer func() {
+		if recover() != nil {
+			ok = false
+		}
+	}()
+	return v.Type(), true
+}
+
 // dispatchError passes an error message to the javascript overrideable error handler.
 func dispatchError(msg string) {
 	js.Global().Call("KeyaddrErrorHandler", msg)
-- 
2.43.0


From 3dea44cff76d2f5dd1ee92dbf105dc05c6f3d68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:16 +0000
Subject: [PATCH 19/41] fix: wasm wordsFromPrefix with a max which is not a
 number panicked, stopping the module

---
 cmd/keyaddr/handlers.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/keyaddr/handlers.go b/cmd/keyaddr/handlers.go
index 05b4689..312f9c0 100644
--- a/cmd/keyaddr/handlers.go
+++ b/cmd/keyaddr/handlers.go
@@ -151,6 +151,12 @@ func wordsFromPrefix(this js.Value, args []js.Value) interface{} {
 
 		lang := remainder[0].String()
 		prefix := remainder[1].String()
+
+		if remainder[2].Type() != js.TypeNumber {
+			jsLogReject(callback, "max must be of type Number")
+			return
+		}
+
 		max := remainder[2].Int()
 
 		// do work
-- 
2.43.0


From af15b99362218394e78098e6048d4171f72dea11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:02 +0000
Subject: [PATCH 20/41] fix: the bounds of LnInt were computed in floating
 point and wrong from e^36 on

---
 pkg/unsigned/log.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/pkg/unsigned/log.go b/pkg/unsigned/log.go
index c082186..ff6af1f 100644
--- a/pkg/unsigned/log.go
+++ b/pkg/unsigned/log.go
@@ -15,23 +15,24 @@ var bounds []uint64
 func init() {
 	// Table was constructed in python:
 	//
-	// >>> from math import ceil, exp
+	// >>> from decimal import Decimal, getcontext
+	// >>> from math import ceil
+	// >>> getcontext().prec = 60 # a float's 53 bits are not enough
 	// >>> i = 0
 	// >>> bounds = []
-	// >>> while exp(i) <= 2**64:
-	// ...     bounds.append(ceil(exp(i))-1)
+	// >>> while Decimal(i).exp() <= 2**64:
+	// ...     bounds.append(ceil(Decimal(i).exp())-1)
 	// ...     i += 1
 	// ...
-	// True
 	bounds = []uint64{
 		0, 2, 7, 20, 54, 148, 403, 1096, 2980, 8103, 22026, 59874, 162754, 442413,
 		1202604, 3269017, 8886110, 24154952, 65659969, 178482300, 485165195,
 		1318815734, 3584912846, 9744803446, 26489122129, 72004899337, 195729609428,
 		532048240601, 1446257064291, 3931334297144, 10686474581524, 29048849665247,
 		78962960182680, 214643579785916, 583461742527454, 1586013452313430,
-		4311231547115194, 11719142372802611, 31855931757113755, 86593400423993743,
-		235385266837019999, 639843493530054911, 1739274941520500991,
-		4727839468229346303, 12851600114359308287, ^uint64(0),
+		4311231547115195, 11719142372802611, 31855931757113756, 86593400423993746,
+		235385266837019985, 639843493530054949, 1739274941520501047,
+		4727839468229346561, 12851600114359308275, ^uint64(0),
 	}
 }
 
-- 
2.43.0


From 8d455ec20f7cba6d8935373ebf9a492ab680b5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:29 +0000
Subject: [PATCH 21/41] fix: signed.MulDiv rounded products of more than 34
 digits before dividing

---
 pkg/signed/math.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pkg/signed/math.go b/pkg/signed/math.go
index 3619c8b..d0c0bd5 100644
--- a/pkg/signed/math.go
+++ b/pkg/signed/math.go
@@ -105,6 +105,14 @@ func DivMod(a, b int64) (int64, int64, error) {
 	return q, r, nil
 }
 
+// mulDivContext has enough digits for the product of any two int64s, which
+// Context128 has not: it would round the product before it is divided
+var mulDivContext = func() decimal.Context {
+	ctx := decimal.Context128
+	ctx.Precision = 40
+	return ctx
+}()
+
 // MulDiv multiplies a int64 value by the ratio n/d without overflowing the int64,
 // provided that the final result does not overflow. Returns error if the result
 // cannot be converted back to int64.
@@ -113,9 +121,9 @@ func MulDiv(v, n, d int64) (int64, error) {
 		return 0, ndauerr.ErrDivideByZero
 	}
 
-	x := decimal.WithContext(decimal.Context128).SetMantScale(v, 0)
-	y := decimal.WithContext(decimal.Context128).SetMantScale(n, 0)
-	z := decimal.WithContext(decimal.Context128).SetMantScale(d, 0)
+	x := decimal.WithContext(mulDivContext).SetMantScale(v, 0)
+	y := decimal.WithContext(mulDivContext).SetMantScale(n, 0)
+	z := decimal.WithContext(mulDivContext).SetMantScale(d, 0)
 	x.Mul(x, y)
 	x.QuoInt(x, z)
 	ret, ok := x.Int64()
-- 
2.43.0


From c7ba7fa9a113431b551a1f7eef21fc45a5b68fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:30 +0000
Subject: [PATCH 22/41] fix: unsigned.MulDiv rounded products of more than 34
 digits before dividing

---
 pkg/unsigned/math.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pkg/unsigned/math.go b/pkg/unsigned/math.go
index fb1e245..eb79b77 100644
--- a/pkg/unsigned/math.go
+++ b/pkg/unsigned/math.go
@@ -110,6 +110,14 @@ func DivMod(a, b uint64) (uint64, uint64, error) {
 	return q, r, nil
 }
 
+// mulDivContext has enough digits for the product of any two uint64s, which
+// Context128 has not: it would round the product before it is divided
+var mulDivContext = func() decimal.Context {
+	ctx := decimal.Context128
+	ctx.Precision = 40
+	return ctx
+}()
+
 // MulDiv multiplies a uint64 value by the ratio n/d without overflowing the uint64,
 // provided that the final result does not overflow. Returns error if the result
 // cannot be converted back to uint64.
@@ -118,9 +126,9 @@ func MulDiv(v, n, d uint64) (uint64, error) {
 		return 0, ndauerr.ErrDivideByZero
 	}
 
-	x := makeDecimal(v)
-	y := makeDecimal(n)
-	z := makeDecimal(d)
+	x := decimal.WithContext(mulDivContext).SetUint64(v)
+	y := decimal.WithContext(mulDivContext).SetUint64(n)
+	z := decimal.WithContext(mulDivContext).SetUint64(d)
 	x.Mul(x, y)
 	x.QuoInt(x, z)
 	ret, ok := x.Uint64()
-- 
2.43.0


From b01ba60809faf7c09339cb6f37b2e815e86536a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:59 +0000
Subject: [PATCH 23/41] fix: ExpFrac divided by an overflowed factorial, and
 panicked for fractions near 1

---
 pkg/signed/exp.go   | 3 ++-
 pkg/unsigned/exp.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/signed/exp.go b/pkg/signed/exp.go
index 178c236..d03a858 100644
--- a/pkg/signed/exp.go
+++ b/pkg/signed/exp.go
@@ -60,7 +60,8 @@ func ExpFrac(numerator, denominator int64) (int64, error) {
 	product := numerator
 	fact := int64(1)
 	var err error
-	for i := int64(2); product != 0; i++ {
+	// 21! overflows, but the terms from there on are 0 anyway: no product is that big
+	for i := int64(2); product != 0 && i <= 20; i++ {
 		product, err = MulDiv(product, numerator, denominator)
 		if err != nil {
 			return 0, err
diff --git a/pkg/unsigned/exp.go b/pkg/unsigned/exp.go
index c94405e..6a63649 100644
--- a/pkg/unsigned/exp.go
+++ b/pkg/unsigned/exp.go
@@ -60,7 +60,8 @@ func ExpFrac(numerator, denominator uint64) (uint64, error) {
 	product := numerator
 	fact := uint64(1)
 	var err error
-	for i := uint64(2); product != 0; i++ {
+	// 21! overflows, but the terms from there on are 0 anyway: no product is that big
+	for i := uint64(2); product != 0 && i <= 20; i++ {
 		product, err = MulDiv(product, numerator, denominator)
 		if err != nil {
 			return 0, err
-- 
2.43.0


From 69136cf84f3d8bae164df8de99ed7f23115ba1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:01 +0000
Subject: [PATCH 24/41] fix: ExpFrac's check for large denominators came after
 the overflow, and left room for another

---
 pkg/signed/exp.go   | 7 ++++---
 pkg/unsigned/exp.go | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/pkg/signed/exp.go b/pkg/signed/exp.go
index d03a858..38c070c 100644
--- a/pkg/signed/exp.go
+++ b/pkg/signed/exp.go
@@ -39,14 +39,15 @@ import (
 // napu multiplication factor of 100,000,000 (which is also the value we use for percentages).
 func ExpFrac(numerator, denominator int64) (int64, error) {
 	rounder := int64(10)
-	numerator *= rounder
-	denominator *= rounder
-	if denominator > (math.MaxInt64 / 2) {
+	// the scaled sum can become e times the scaled denominator
+	if denominator > math.MaxInt64/3/rounder {
 		return 0, errors.New("denominator too large")
 	}
 	if numerator > denominator || numerator < 0 || denominator < 0 {
 		return 0, errors.New("fraction must be between 0 and 1")
 	}
+	numerator *= rounder
+	denominator *= rounder
 	// start the sum at 1 + x, which is b/b + a/b, and we only care about the
 	// numerator, so it's just b+a
 	sum := denominator + numerator
diff --git a/pkg/unsigned/exp.go b/pkg/unsigned/exp.go
index 6a63649..f4315dc 100644
--- a/pkg/unsigned/exp.go
+++ b/pkg/unsigned/exp.go
@@ -39,14 +39,15 @@ import (
 // napu multiplication factor of 100,000,000 (which is also the value we use for percentages).
 func ExpFrac(numerator, denominator uint64) (uint64, error) {
 	rounder := uint64(10)
-	numerator *= rounder
-	denominator *= rounder
-	if denominator > (math.MaxUint64 / 2) {
+	// the scaled sum can become e times the scaled denominator
+	if denominator > math.MaxUint64/3/rounder {
 		return 0, errors.New("denominator too large")
 	}
 	if numerator > denominator {
 		return 0, errors.New("fraction must be between 0 and 1")
 	}
+	numerator *= rounder
+	denominator *= rounder
 	// start the sum at 1 + x, which is b/b + a/b, and we only care about the
 	// numerator, so it's just b+a
 	sum := denominator + numerator
-- 
2.43.0


From 4a6b5c769223276e8eed19f9946343546d6261ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:58 +0000
Subject: [PATCH 25/41] fix: Ndau.String lost the sign of amounts between -1
 and 0 ndau, and garbled the smallest one

---
 pkg/types/ndau.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pkg/types/ndau.go b/pkg/types/ndau.go
index c909ab8..3a9ea9b 100644
--- a/pkg/types/ndau.go
+++ b/pkg/types/ndau.go
@@ -71,17 +71,18 @@ func (n Ndau) Compare(rhs Ndau) int {
 // decimal value of ndau. The full napu value is displayed, but trailing zeros
 // are suppressed.
 func (n Ndau) String() string {
-	var sign int64 = 1
+	sign := ""
+	na := uint64(n)
 	if n < 0 {
-		sign = -1
+		sign = "-"
+		na = -na
 	}
-	na := n.Abs()
 	ndau := na / constants.NapuPerNdau
 	napu := na % constants.NapuPerNdau
 	if napu == 0 {
-		return strconv.FormatInt(int64(sign*int64(ndau)), 10)
+		return sign + strconv.FormatUint(ndau, 10)
 	}
-	s := fmt.Sprintf("%d.%08d", sign*int64(ndau), napu)
+	s := fmt.Sprintf("%s%d.%08d", sign, ndau, napu)
 	t := len(s)
 	// trim off trailing zeros
 	for ; s[t-1] == '0'; t-- {
-- 
2.43.0


From d7488412d2c861aafe28b978d281ccad0a309449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:06 +0000
Subject: [PATCH 26/41] fix: ParseNdau gave wrong amounts for numbers too large
 for one

---
 pkg/types/ndau.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/types/ndau.go b/pkg/types/ndau.go
index 3a9ea9b..34a79a6 100644
--- a/pkg/types/ndau.go
+++ b/pkg/types/ndau.go
@@ -17,6 +17,7 @@ import (
 	"strconv"
 
 	"github.com/ndau/ndaumath/pkg/constants"
+	"github.com/ndau/ndaumath/pkg/ndauerr"
 	"github.com/ndau/ndaumath/pkg/signed"
 	"github.com/pkg/errors"
 )
@@ -130,6 +131,9 @@ func ParseNdau(s string) (Ndau, error) {
 		return 0, errors.Wrap(err, "parsing ndau")
 	}
 
+	if whole > gomath.MaxInt64/constants.NapuPerNdau {
+		return 0, errors.Wrap(ndauerr.ErrOverflow, "parsing ndau")
+	}
 	out := Ndau(whole) * constants.NapuPerNdau
 
 	fracs, ok := result["frac"]
@@ -147,7 +151,10 @@ func ParseNdau(s string) (Ndau, error) {
 		if err != nil {
 			return 0, errors.Wrap(err, "parsing frac component")
 		}
-		out += Ndau(frac)
+		out, err = out.Add(Ndau(frac))
+		if err != nil {
+			return 0, errors.Wrap(err, "parsing ndau")
+		}
 	}
 
 	return out, nil
-- 
2.43.0


From a8e7b31d229883d4718fa8c6903b6b915d6f15df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:07 +0000
Subject: [PATCH 27/41] fix: ParseDuration gave wrong durations for texts of
 longer ones than there are

---
 pkg/types/duration.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pkg/types/duration.go b/pkg/types/duration.go
index e048932..ac4237d 100644
--- a/pkg/types/duration.go
+++ b/pkg/types/duration.go
@@ -67,14 +67,22 @@ func ParseDuration(s string) (Duration, error) {
 		}
 	}
 
-	duration := Duration(0)
+	// the magnitude; that of the smallest duration is one more than the largest duration
+	limit := uint64(constants.MaxDuration)
+	if result["neg"] != "" {
+		limit++
+	}
+	duration := uint64(0)
 	addTime := func(name string, unit uint64) error {
 		if result[name] != "" {
 			value, err := strconv.ParseUint(result[name], 10, 64)
 			if err != nil {
 				return fmt.Errorf("invalid integer: %s", result[name])
 			}
-			duration += Duration(value * unit)
+			if value > (limit-duration)/unit {
+				return fmt.Errorf("duration too long: %s", s)
+			}
+			duration += value * unit
 		}
 		return nil
 	}
@@ -105,7 +113,7 @@ func ParseDuration(s string) (Duration, error) {
 		duration = -duration
 	}
 
-	return duration, nil
+	return Duration(duration), nil
 }
 
 // String represents a Duration as a human-readable string
-- 
2.43.0


From 8433804b84b8a8c0080fafb740c8908243797314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:09 +0000
Subject: [PATCH 28/41] fix: the text of the smallest Duration was a lone minus
 sign

---
 pkg/types/duration.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pkg/types/duration.go b/pkg/types/duration.go
index ac4237d..49ebd86 100644
--- a/pkg/types/duration.go
+++ b/pkg/types/duration.go
@@ -118,17 +118,18 @@ func ParseDuration(s string) (Duration, error) {
 
 // String represents a Duration as a human-readable string
 func (d Duration) String() string {
-	value := int64(d)
+	// unsigned, for the smallest duration has no positive counterpart
+	value := uint64(d)
 	out := ""
-	if value < 0 {
+	if d < 0 {
 		out = "-"
 		value = -value
 	}
-	divmod := func(divisor, dividend int64) (int64, int64) {
+	divmod := func(divisor, dividend uint64) (uint64, uint64) {
 		return divisor / dividend, divisor % dividend
 	}
-	extract := func(symbol string, unit int64) {
-		var units int64
+	extract := func(symbol string, unit uint64) {
+		var units uint64
 		units, value = divmod(value, unit)
 		if units > 0 {
 			out += fmt.Sprintf("%d%s", units, symbol)
-- 
2.43.0


From 1a4a3284edb3342b3d318c23ddeadcbb790f7468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:10 +0000
Subject: [PATCH 29/41] fix: UpdateWeightedAverageAge overflowed when the age
 became too long

---
 pkg/types/duration.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/types/duration.go b/pkg/types/duration.go
index 49ebd86..25f9571 100644
--- a/pkg/types/duration.go
+++ b/pkg/types/duration.go
@@ -164,7 +164,11 @@ func (d *Duration) UpdateWeightedAverageAge(
 	transferQty Ndau,
 	previousBalance Ndau,
 ) error {
-	waa := int64(*d) + int64(sinceLastUpdate)
+	dur, err := signed.Add(int64(*d), int64(sinceLastUpdate))
+	if err != nil {
+		return errors.New("Duration overflow in UpdateWeightedAverageAge")
+	}
+	waa := dur
 	if int64(transferQty) >= 0 {
 		newBalance, err := previousBalance.Add(transferQty)
 		if err != nil {
@@ -173,7 +177,6 @@ func (d *Duration) UpdateWeightedAverageAge(
 		// we have to use bigints to prevent the multiplication from overflow
 		nb := int64(newBalance)
 		pb := int64(previousBalance)
-		dur := int64(*d + sinceLastUpdate)
 		if nb > 0 {
 			waa, err = signed.MulDiv(dur, pb, nb)
 			if err != nil {
-- 
2.43.0


From 444e5a63850abc5c5ad735f04dd6281752077a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:37 +0000
Subject: [PATCH 30/41] fix: timestamps more than 292 years after the epoch
 were converted to and from wrong dates

---
 pkg/types/timestamp.go | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/pkg/types/timestamp.go b/pkg/types/timestamp.go
index 83ff2fa..fb89690 100644
--- a/pkg/types/timestamp.go
+++ b/pkg/types/timestamp.go
@@ -51,22 +51,23 @@ func ParseTimestamp(s string) (Timestamp, error) {
 
 // TimestampFrom creates a Timestamp given a time.Time object
 func TimestampFrom(t time.Time) (Timestamp, error) {
-	// because this uses the standard library, it will overflow
-	// some 290 years after the epoch
-	//
-	// TODO: implement this in a way which ensures its monotonic properties
-	durationSinceEpoch := t.Sub(constants.Epoch)
-	if durationSinceEpoch < 0 {
+	if t.Before(constants.Epoch) {
 		return Timestamp(0), errors.New("date is before Epoch start")
 	}
-	return Timestamp(int64(durationSinceEpoch / time.Microsecond)), nil
+	// a time.Duration lasts for some 290 years only, so count seconds
+	seconds := t.Unix() - constants.Epoch.Unix()
+	micros := int64(t.Nanosecond()) / int64(time.Microsecond)
+	if seconds > (constants.MaxTimestamp-micros)/Second {
+		return Timestamp(0), errors.New("date is too far after Epoch start")
+	}
+	return Timestamp(seconds*Second + micros), nil
 }
 
 // AsTime converts a Timestamp into a time.Time object
-//
-// TODO: implement this in a way which ensures its monotonic properties
 func (t Timestamp) AsTime() time.Time {
-	return constants.Epoch.Add(time.Duration(int64(t)) * time.Microsecond)
+	// a time.Duration lasts for some 290 years only, so count seconds
+	seconds, micros := int64(t)/Second, int64(t)%Second
+	return time.Unix(constants.Epoch.Unix()+seconds, micros*int64(time.Microsecond)).UTC()
 }
 
 // Compare implements comparison for Timestamp.
-- 
2.43.0


From 2f07f2fccf57ca6ff0f1a14c629f99fcfe5366fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:16 +0000
Subject: [PATCH 31/41] fix: RateFromPercent overflowed from 18,446,745 percent
 on

---
 pkg/eai/rate.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/eai/rate.go b/pkg/eai/rate.go
index 9bdc2b4..db8c37f 100644
--- a/pkg/eai/rate.go
+++ b/pkg/eai/rate.go
@@ -131,7 +131,7 @@ func ParseRate(s string) (Rate, error) {
 //
 // i.e. to express 1%, `nPercent` should equal `1`
 func RateFromPercent(nPercent uint64) Rate {
-	return Rate(nPercent * constants.RateDenominator / 100)
+	return Rate(nPercent * (constants.RateDenominator / 100))
 }
 
 //msgp:tuple RTRow
-- 
2.43.0


From db0e86f134ef6f53c990a9c3d72d115cb8c95baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:31 +0000
Subject: [PATCH 32/41] fix: ParseRate gave wrong rates for numbers too large
 for one

---
 pkg/eai/rate.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/eai/rate.go b/pkg/eai/rate.go
index db8c37f..28531b6 100644
--- a/pkg/eai/rate.go
+++ b/pkg/eai/rate.go
@@ -20,6 +20,7 @@ import (
 	"unicode/utf8"
 
 	"github.com/ndau/ndaumath/pkg/constants"
+	"github.com/ndau/ndaumath/pkg/ndauerr"
 	math "github.com/ndau/ndaumath/pkg/types"
 	"github.com/pkg/errors"
 )
@@ -104,7 +105,10 @@ func ParseRate(s string) (Rate, error) {
 	if err != nil {
 		return Rate(0), errors.Wrap(err, "parsing pct")
 	}
-	out := RateFromPercent(1) * Rate(pct)
+	if pct > gomath.MaxInt64/uint64(RateFromPercent(1)) {
+		return Rate(0), errors.Wrap(ndauerr.ErrOverflow, "parsing pct")
+	}
+	out := RateFromPercent(pct)
 
 	fracs, ok := result["frac"]
 	if ok {
@@ -122,6 +126,9 @@ func ParseRate(s string) (Rate, error) {
 			return Rate(0), errors.Wrap(err, "parsing frac")
 		}
 		out += Rate(frac)
+		if out < 0 {
+			return Rate(0), errors.Wrap(ndauerr.ErrOverflow, "parsing rate")
+		}
 	}
 
 	return out, nil
-- 
2.43.0


From c7d6aacaaadb62e656bde62ca38d5fc171af8a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:35 +0000
Subject: [PATCH 33/41] fix: EAI too large for an amount came out negative

---
 pkg/eai/eai.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/eai/eai.go b/pkg/eai/eai.go
index 26bf77c..4879a44 100644
--- a/pkg/eai/eai.go
+++ b/pkg/eai/eai.go
@@ -12,6 +12,7 @@ package eai
 
 import (
 	"github.com/ndau/ndaumath/pkg/constants"
+	"github.com/ndau/ndaumath/pkg/ndauerr"
 	math "github.com/ndau/ndaumath/pkg/types"
 	"github.com/ndau/ndaumath/pkg/unsigned"
 	"github.com/pkg/errors"
@@ -63,6 +64,9 @@ func Calculate(
 	if err != nil {
 		return 0, err
 	}
+	if eai > constants.MaxQuantaPerAddress {
+		return 0, ndauerr.ErrOverflow
+	}
 	return math.Ndau(eai), nil
 }
 
-- 
2.43.0


From ceabd926e5e4a17ee13255ae33e27e06a26bcf18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:41 +0000
Subject: [PATCH 34/41] fix: ApproxTotalPriceFor charged a used sale block's
 price for as many as it had sold, not for its rest

---
 pkg/pricecurve/pricecurve.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pkg/pricecurve/pricecurve.go b/pkg/pricecurve/pricecurve.go
index fc3c328..56672da 100644
--- a/pkg/pricecurve/pricecurve.go
+++ b/pkg/pricecurve/pricecurve.go
@@ -94,10 +94,7 @@ func ApproxTotalPriceFor(numNdau, alreadySold types.Ndau) float64 {
 	var totalPrice float64
 	for {
 		var price = ApproxPriceAtUnit(alreadySold)
-		var availableInThisBlock = alreadySold % numPerBlock
-		if availableInThisBlock == 0 {
-			availableInThisBlock = numPerBlock
-		}
+		var availableInThisBlock = numPerBlock - alreadySold%numPerBlock
 
 		// if what we're buying fits in the current block, just calculate the
 		// total price and we're done
-- 
2.43.0


From b531a31b38e5ff2d01498b47c9000bef7bda18f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:42 +0000
Subject: [PATCH 35/41] fix: ApproxTotalPriceFor gave fractions of an ndau away
 for free

---
 pkg/pricecurve/pricecurve.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/pricecurve/pricecurve.go b/pkg/pricecurve/pricecurve.go
index 56672da..52a67b7 100644
--- a/pkg/pricecurve/pricecurve.go
+++ b/pkg/pricecurve/pricecurve.go
@@ -99,14 +99,14 @@ func ApproxTotalPriceFor(numNdau, alreadySold types.Ndau) float64 {
 		// if what we're buying fits in the current block, just calculate the
 		// total price and we're done
 		if numNdau <= availableInThisBlock {
-			totalPrice += price * float64(numNdau/constants.QuantaPerUnit)
+			totalPrice += price * (float64(numNdau) / constants.QuantaPerUnit)
 			return totalPrice
 		}
 
 		// otherwise, buy the remainder of this block and loop
 		numNdau -= availableInThisBlock
 		alreadySold += availableInThisBlock
-		totalPrice += price * float64(availableInThisBlock/constants.QuantaPerUnit)
+		totalPrice += price * (float64(availableInThisBlock) / constants.QuantaPerUnit)
 	}
 }
 
-- 
2.43.0


From e9c11f75008df9c79dbf59e9940b58d2a4663122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:43 +0000
Subject: [PATCH 36/41] fix: ParseDollars gave wrong amounts for more dollars
 than nanocents can count

---
 pkg/pricecurve/nanocent.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/pkg/pricecurve/nanocent.go b/pkg/pricecurve/nanocent.go
index 32a42ed..273687e 100644
--- a/pkg/pricecurve/nanocent.go
+++ b/pkg/pricecurve/nanocent.go
@@ -16,6 +16,7 @@ import (
 	"strconv"
 	"strings"
 
+	"github.com/ndau/ndaumath/pkg/signed"
 	"github.com/pkg/errors"
 )
 
@@ -80,13 +81,21 @@ func ParseDollars(dollars string) (Nanocent, error) {
 		}
 	}
 
-	// add it all up
-	nc := Nanocent(d*Dollar + c)
-
 	// handle negatives
 	if submatches["neg"] == "-" {
-		nc = -nc
+		d = -d
+		c = -c
+	}
+
+	// add it all up
+	d, err = signed.Mul(d, Dollar)
+	if err != nil {
+		return 0, errors.Wrap(err, "converting dollars: "+submatches["dollars"])
+	}
+	nc, err := signed.Add(d, c)
+	if err != nil {
+		return 0, errors.Wrap(err, "adding cents: "+submatches["cents"])
 	}
 
-	return nc, err
+	return Nanocent(nc), nil
 }
-- 
2.43.0


From 63ed44d781501d2062c61617fe3a9db42336c85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:20 +0000
Subject: [PATCH 37/41] fix: address.Validate accepted the Kelvin sign for k
 and a dotted capital I for i

---
 pkg/address/address_impl.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/address/address_impl.go b/pkg/address/address_impl.go
index 86bee0f..686190d 100644
--- a/pkg/address/address_impl.go
+++ b/pkg/address/address_impl.go
@@ -176,13 +176,15 @@ func Generate(kind byte, data []byte) (Address, error) {
 // It does NOT test the nd prefix, as that may vary -- clients should test that
 // themselves.
 func Validate(addr string) (Address, error) {
-	addr = strings.ToLower(addr)
 	// if !strings.HasPrefix(addr, "nd") {
 	// 	return emptyA(), newError("not an ndau key")
 	// }
 	if len(addr) != AddrLength {
 		return emptyA(), newError(fmt.Sprintf("not a valid address length '%s'", addr))
 	}
+	// (only after the length was checked, as there are longer characters whose
+	// lower case is a letter: the Kelvin sign and the dotted capital I)
+	addr = strings.ToLower(addr)
 	if kind := addr[kindOffset]; !IsValidKind(kind) {
 		return emptyA(), newError(fmt.Sprintf("unknown address kind: %x", kind))
 	}
-- 
2.43.0


From 9c1c8ebb63012e8593462812afce69563c90f9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:23 +0000
Subject: [PATCH 38/41] fix: b32.Decode, and so the text of keys and
 signatures, accepted the Kelvin sign for k and a dotted capital I for i

---
 pkg/b32/b32.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pkg/b32/b32.go b/pkg/b32/b32.go
index 5d5499c..73cf76f 100644
--- a/pkg/b32/b32.go
+++ b/pkg/b32/b32.go
@@ -35,5 +35,15 @@ func Encode(b []byte) string {
 // Decode converts a string back to a byte stream; case is insignificant.
 func Decode(s string) ([]byte, error) {
 	enc := base32.NewEncoding(NdauAlphabet)
-	return enc.DecodeString(strings.ToLower(s))
+	return enc.DecodeString(strings.Map(lower, s))
+}
+
+// lower maps A to Z to lower case. Unlike strings.ToLower it does not make
+// letters of our alphabet of characters outside ASCII (the Kelvin sign and the
+// dotted capital I).
+func lower(r rune) rune {
+	if 'A' <= r && r <= 'Z' {
+		return r + 'a' - 'A'
+	}
+	return r
 }
-- 
2.43.0


From ee1f94bf9674551732f4ac208295ca85f1900ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:12 +0000
Subject: [PATCH 39/41] fix: ApproxUnitAtPrice overflowed on 32-bit platforms
 and gave wrong units

---
 pkg/pricecurve/pricecurve.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/pricecurve/pricecurve.go b/pkg/pricecurve/pricecurve.go
index 52a67b7..97a167c 100644
--- a/pkg/pricecurve/pricecurve.go
+++ b/pkg/pricecurve/pricecurve.go
@@ -74,7 +74,7 @@ func ApproxUnitAtPrice(price float64) int {
 	low := 0
 	guess := 15000
 	for high-low > 1 {
-		p := ApproxPriceAtUnit(types.Ndau(guess * 1000 * constants.QuantaPerUnit))
+		p := ApproxPriceAtUnit(types.Ndau(guess) * 1000 * constants.QuantaPerUnit)
 		if p >= price {
 			high = guess
 		}
-- 
2.43.0


From 22293ea65fd03504b9bf4c4c349744505f01b90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:26 +0000
Subject: [PATCH 40/41] fix: corrupt keys and signatures panicked on 32-bit
 platforms

---
 pkg/signature/algorithm.go | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/pkg/signature/algorithm.go b/pkg/signature/algorithm.go
index 88aaef3..ab085b3 100644
--- a/pkg/signature/algorithm.go
+++ b/pkg/signature/algorithm.go
@@ -11,10 +11,12 @@ package signature
 
 
 import (
+	"encoding/binary"
 	"io"
 	"reflect"
 
 	"github.com/pkg/errors"
+	"github.com/tinylib/msgp/msgp"
 )
 
 // Algorithm abstracts over a variety of signature algorithms
@@ -93,11 +95,29 @@ func algorithmOf(id AlgorithmID) (Algorithm, error) {
 	return cloneAl(example), nil
 }
 
+// read the container of a key or of a signature
+//
+// Where an int has 32 bits, msgp takes an announced size of 2^31 bytes or more
+// for a negative one and panics. No data is that long there.
+func unmarshalContainer(serialized []byte) (container IdentifiedData, leftovers []byte, err error) {
+	const bin32 = 0xc6
+	if _, rest, e := msgp.ReadArrayHeaderBytes(serialized); e == nil {
+		_, rest, e = msgp.ReadUint8Bytes(rest)
+		if e == nil && len(rest) >= 5 && rest[0] == bin32 {
+			size := binary.BigEndian.Uint32(rest[1:])
+			if uint64(size) > uint64(len(rest)-5) {
+				return container, nil, msgp.ErrShortBytes
+			}
+		}
+	}
+	leftovers, err = container.UnmarshalMsg(serialized)
+	return container, leftovers, err
+}
+
 // Unmarshal the serialized binary data into an Algorithm instance and
 // the originally supplied data.
 func unmarshal(serialized []byte) (al Algorithm, data []byte, err error) {
-	container := IdentifiedData{}
-	leftovers, err := container.UnmarshalMsg(serialized)
+	container, leftovers, err := unmarshalContainer(serialized)
 	if err != nil {
 		return nil, nil, err
 	}
@@ -112,8 +132,7 @@ func unmarshal(serialized []byte) (al Algorithm, data []byte, err error) {
 }
 
 func unmarshalWithLeftovers(serialized []byte) (al Algorithm, data, leftovers []byte, err error) {
-	container := IdentifiedData{}
-	leftovers, err = container.UnmarshalMsg(serialized)
+	container, leftovers, err := unmarshalContainer(serialized)
 	if err != nil {
 		return nil, nil, nil, err
 	}
-- 
2.43.0


From 7a252b2068e60bd4e0f9e9c35ba425b2a534721d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:31 +0000
Subject: [PATCH 41/41] fix: EAI could not be calculated for a rate and time
 whose product exceeds 1

---
 pkg/eai/eai.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/pkg/eai/eai.go b/pkg/eai/eai.go
index 4879a44..a4e0b50 100644
--- a/pkg/eai/eai.go
+++ b/pkg/eai/eai.go
@@ -196,13 +196,21 @@ func calculateEAIFactor(
 		if err != nil {
 			return 0, err
 		}
-		rowFactor, err := unsigned.ExpFrac(divisor, constants.RateDenominator)
-		if err != nil {
-			return 0, err
-		}
-		factor, err = unsigned.MulDiv(factor, rowFactor, constants.RateDenominator)
-		if err != nil {
-			return 0, err
+		// ExpFrac takes exponents up to 1: a larger one makes several factors
+		for first := true; first || divisor > 0; first = false {
+			part := divisor
+			if part > constants.RateDenominator {
+				part = constants.RateDenominator
+			}
+			divisor -= part
+			rowFactor, err := unsigned.ExpFrac(part, constants.RateDenominator)
+			if err != nil {
+				return 0, err
+			}
+			factor, err = unsigned.MulDiv(factor, rowFactor, constants.RateDenominator)
+			if err != nil {
+				return 0, err
+			}
 		}
 	}
 
-- 
2.43.0

