From 6584868cfdd573fd9036f25a2e35137ab9fe070c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:52 +0000
Subject: [PATCH 01/15] fix: sm3: Write reports the number of bytes consumed

Write returned 0 when the input fitted in the block buffer and the length of
the input less the bytes used to complete a block otherwise, so io.Writer's
contract was broken (io.Copy into the hash failed with a short write).
---
 hash/sm3/sm3.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hash/sm3/sm3.go b/hash/sm3/sm3.go
index 90c6eeb..31b096d 100644
--- a/hash/sm3/sm3.go
+++ b/hash/sm3/sm3.go
@@ -57,6 +57,8 @@ func (d *digest) Reset() {
 
 func (d *digest) Write(input []byte) (nn int, err error) {
 
+	nn = len(input)
+
 	// current possition in the buffer
 	idx := int(d.len & uint64((d.BlockSize() - 1)))
 	d.len += uint64(len(input))
@@ -76,7 +78,7 @@ func (d *digest) Write(input []byte) (nn int, err error) {
 
 	// this eventually could be done in d.compress
 	copy(d.b[:], input[nblocks*d.BlockSize():])
-	return len(input), nil
+	return nn, nil
 }
 
 func (d *digest) Sum(in []byte) []byte {
-- 
2.43.0


From 0830ff0c7e252c1410786768f10e2b1ceab2a65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:18 +0000
Subject: [PATCH 02/15] fix: sha3: Sum doesn't change the underlying hash state

Sum squeezed the hash itself, so a second Sum returned different bytes and a
Write following Sum failed with ErrWriteAfterRead, against hash.Hash's contract.
---
 hash/sha3/sha3.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hash/sha3/sha3.go b/hash/sha3/sha3.go
index d08dff8..ab74a84 100644
--- a/hash/sha3/sha3.go
+++ b/hash/sha3/sha3.go
@@ -191,7 +191,7 @@ func (c *state) Read(out []byte) (nread int, err error) {
 }
 
 // Sum applies padding to the hash state and then squeezes out the desired
-// number of output bytes.
+// number of output bytes. It doesn't change the state of the hash.
 func (c *state) Sum(in []byte) []byte {
 	l := len(in)
 	// create buffer if nil has been provided
@@ -206,7 +206,9 @@ func (c *state) Sum(in []byte) []byte {
 	}
 
 	in = in[:l+c.Size()]
-	c.Read(in[l:])
+	// Squeeze from a copy, so that caller can keep writing and summing
+	dup := *c
+	dup.Read(in[l:])
 	return in
 }
 
-- 
2.43.0


From 8fcfc6a8f180ff673d790d70a26ba018dd952156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:18 +0000
Subject: [PATCH 03/15] fix: sha3: cSHAKE bytepad adds no block when input is
 already aligned

SP 800-185 section 2.3.3 pads with zeros up to a multiple of w, which adds
nothing when the encoded input already is one. A whole zero block was added.
---
 hash/sha3/shake.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hash/sha3/shake.go b/hash/sha3/shake.go
index 16f2634..cfa2dd5 100644
--- a/hash/sha3/shake.go
+++ b/hash/sha3/shake.go
@@ -54,7 +54,7 @@ func bytepad(input []byte, w int) []byte {
 	buf := make([]byte, 0, 9+len(input)+w)
 	buf = append(buf, leftEncode(uint64(w))...)
 	buf = append(buf, input...)
-	padlen := w - (len(buf) % w)
+	padlen := (w - (len(buf) % w)) % w
 	return append(buf, make([]byte, padlen)...)
 }
 
-- 
2.43.0


From b309b52c4611f4ac148154d65ac44a39ec77a9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:19 +0000
Subject: [PATCH 04/15] fix: drbg: generate partial last block as SP 800-90A
 says

The remainder of a request which is not a multiple of 16 bytes was encrypted
without incrementing V, so it repeated the beginning of the previous output
block, and, for requests shorter than a block, under a stale key schedule.
---
 drbg/ctr_drbg.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/drbg/ctr_drbg.go b/drbg/ctr_drbg.go
index 10ad81d..7f23162 100644
--- a/drbg/ctr_drbg.go
+++ b/drbg/ctr_drbg.go
@@ -147,8 +147,12 @@ func (c *CtrDrbg) ReadWithAdditionalData(out, ad []byte) (n int, err error) {
 	}
 
 	// Copy remainder - case for out being not block aligned
-	c.blockEnc.Encrypt(c.tmpBlk[:], c.v[:])
-	copy(out[blocks*BlockLen:], c.tmpBlk[:len(out)%BlockLen])
+	if len(out)%BlockLen != 0 {
+		c.inc()
+		c.blockEnc.SetKey(c.key[:])
+		c.blockEnc.Encrypt(c.tmpBlk[:], c.v[:])
+		copy(out[blocks*BlockLen:], c.tmpBlk[:len(out)%BlockLen])
+	}
 
 	c.update(seedBuf[:])
 	c.counter += 1
-- 
2.43.0


From 483d4e74de12483be2fd1622c47402127ecb002c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:35 +0000
Subject: [PATCH 05/15] fix: drbg: Init starts from a zero Key and V

Init on a generator that had been used mixed the previous internal state in, so
its output was not determined by the given entropy and personalization string.
---
 drbg/ctr_drbg.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/drbg/ctr_drbg.go b/drbg/ctr_drbg.go
index 7f23162..cd4f39d 100644
--- a/drbg/ctr_drbg.go
+++ b/drbg/ctr_drbg.go
@@ -79,6 +79,9 @@ func (c *CtrDrbg) Init(entropy, personalization []byte) bool {
 		seedBuf[i] ^= personalization[i]
 	}
 
+	// Instantiation starts with Key and V set to 0 (SP800-90A, 10.2.1.3.1)
+	c.key = [KeyLen]byte{}
+	c.v = [BlockLen]byte{}
 	c.blockEnc.SetKey(c.key[:])
 	c.update(seedBuf[:])
 	c.counter = 1
-- 
2.43.0


From ed7f1f41e300af533781a56dcd86191ed6951426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:35 +0000
Subject: [PATCH 06/15] fix: utils: read AES-NI flag from ECX

CPUID leaf 1 reports AES-NI in bit 25 of ECX; the code tested bit 25 of EBX,
which belongs to the initial APIC id, so AES-NI was used on CPUs without it, or
not used, depending on the core the program started on.
---
 utils/cpuid_amd64.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/utils/cpuid_amd64.go b/utils/cpuid_amd64.go
index 3f20c01..e5a3137 100644
--- a/utils/cpuid_amd64.go
+++ b/utils/cpuid_amd64.go
@@ -23,11 +23,11 @@ func init() {
 		return
 	}
 
-	_, ecx, _, _ := cpuid(1, 0)
+	_, _, ecx, _ := cpuid(1, 0)
 	X86.HasAES = bitn(ecx, 25)
 
-	_, ecx, _, _ = cpuid(7, 0)
-	X86.HasBMI2 = bitn(ecx, 8)
-	X86.HasADX = bitn(ecx, 19)
-	X86.HasRDSEED = bitn(ecx, 18)
+	_, ebx, _, _ := cpuid(7, 0)
+	X86.HasBMI2 = bitn(ebx, 8)
+	X86.HasADX = bitn(ebx, 19)
+	X86.HasRDSEED = bitn(ebx, 18)
 }
-- 
2.43.0


From 00bdabb088dac274b02741232129347c1e1583e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:35 +0000
Subject: [PATCH 07/15] fix: aes: AES-NI cipher honours the size of the key

Encrypt and Decrypt always ran 14 rounds, which is wrong for 128 and 192 bit
keys, and keys of an unsupported size were accepted instead of rejected.
---
 drbg/internal/aes/cipher_asm.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/drbg/internal/aes/cipher_asm.go b/drbg/internal/aes/cipher_asm.go
index e2738fd..4c47d4b 100644
--- a/drbg/internal/aes/cipher_asm.go
+++ b/drbg/internal/aes/cipher_asm.go
@@ -21,13 +21,16 @@ func decryptBlockAsm(nr int, xk *uint32, dst, src *byte)
 func expandKeyAsm(nr int, key *byte, enc *uint32, dec *uint32)
 
 type AESAsm struct {
-	enc [32 + 28]uint32
-	dec [32 + 28]uint32
+	enc    [32 + 28]uint32
+	dec    [32 + 28]uint32
+	rounds int
 }
 
 func (c *AESAsm) SetKey(key []byte) error {
 	var rounds int
 	switch len(key) {
+	default:
+		return KeySizeError(len(key))
 	case 128 / 8:
 		rounds = 10
 	case 192 / 8:
@@ -36,6 +39,7 @@ func (c *AESAsm) SetKey(key []byte) error {
 		rounds = 14
 	}
 
+	c.rounds = rounds
 	expandKeyAsm(rounds, &key[0], &c.enc[0], &c.dec[0])
 	return nil
 }
@@ -52,7 +56,7 @@ func (c *AESAsm) Encrypt(dst, src []byte) {
 	if InexactOverlap(dst[:BlockSize], src[:BlockSize]) {
 		panic("crypto/aes: invalid buffer overlap")
 	}
-	encryptBlockAsm(len(c.enc)/4-1, &c.enc[0], &dst[0], &src[0])
+	encryptBlockAsm(c.rounds, &c.enc[0], &dst[0], &src[0])
 }
 
 func (c *AESAsm) Decrypt(dst, src []byte) {
@@ -65,7 +69,7 @@ func (c *AESAsm) Decrypt(dst, src []byte) {
 	if InexactOverlap(dst[:BlockSize], src[:BlockSize]) {
 		panic("crypto/aes: invalid buffer overlap")
 	}
-	decryptBlockAsm(len(c.dec)/4-1, &c.dec[0], &dst[0], &src[0])
+	decryptBlockAsm(c.rounds, &c.dec[0], &dst[0], &src[0])
 }
 
 // expandKey is used by BenchmarkExpand to ensure that the asm implementation
-- 
2.43.0


From 8475a4d0ee28752e724da116d39c8e0fa99974a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:35 +0000
Subject: [PATCH 08/15] fix: csidh: importing private key from a longer buffer
 doesn't panic

Import accepts, as Export does, a buffer longer than the key, but then indexed
the key with the length of the buffer.
---
 dh/csidh/csidh.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dh/csidh/csidh.go b/dh/csidh/csidh.go
index d8f9c21..8b97c0e 100644
--- a/dh/csidh/csidh.go
+++ b/dh/csidh/csidh.go
@@ -200,7 +200,7 @@ func (c *PrivateKey) Import(key []byte) bool {
 	if len(key) < len(c.e) {
 		return false
 	}
-	for i, v := range key {
+	for i, v := range key[:len(c.e)] {
 		c.e[i] = int8(v)
 	}
 	return true
-- 
2.43.0


From 7d3df39baed92c2066535958729d3925b5056b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:35 +0000
Subject: [PATCH 09/15] fix: csidh: importing public key replaces the previous
 value

Import ORed the bytes into the value already stored in the key.
---
 dh/csidh/csidh.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dh/csidh/csidh.go b/dh/csidh/csidh.go
index 8b97c0e..1ef1055 100644
--- a/dh/csidh/csidh.go
+++ b/dh/csidh/csidh.go
@@ -247,6 +247,7 @@ func (c *PublicKey) Import(key []byte) bool {
 	if len(key) != numWords*limbByteSize {
 		return false
 	}
+	c.a = fp{}
 	for i := 0; i < len(key); i++ {
 		j := i / limbByteSize
 		k := uint64(i % 8)
-- 
2.43.0


From ab4d38d772cfc782c254c9b7f45f8128233270cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:35 +0000
Subject: [PATCH 10/15] fix: sidh: importing public key replaces the previous
 value

BytesToFp2 ORed the bytes into the element, so that PublicKey.Import into a key
which was already in use stored garbage, although it is documented to clear it.
---
 dh/sidh/common/utils.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dh/sidh/common/utils.go b/dh/sidh/common/utils.go
index e5ff4b3..988a204 100644
--- a/dh/sidh/common/utils.go
+++ b/dh/sidh/common/utils.go
@@ -19,6 +19,7 @@ func BytesToFp2(fp2 *Fp2, input []byte, bytelen int) {
 		panic("input byte slice too short")
 	}
 
+	*fp2 = Fp2{}
 	for i := 0; i < bytelen; i++ {
 		j := i / 8
 		k := uint64(i % 8)
-- 
2.43.0


From 6a3775f0b98b63b34972a2ee7a7526113f16dbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:35 +0000
Subject: [PATCH 11/15] fix: sike: Encapsulate hashes the ciphertext only

A ciphertext buffer larger than CiphertextSize is accepted, but all of it was
hashed into the shared secret, so that Decapsulate got a different secret.
---
 dh/sidh/sike.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dh/sidh/sike.go b/dh/sidh/sike.go
index 611b68b..bb8a65f 100644
--- a/dh/sidh/sike.go
+++ b/dh/sidh/sike.go
@@ -100,7 +100,7 @@ func (c *KEM) Encapsulate(ciphertext, secret []byte, pub *PublicKey) error {
 	// K = H(msg||(c0||c1))
 	c.shake.Reset()
 	_, _ = c.shake.Write(c.msg)
-	_, _ = c.shake.Write(ciphertext)
+	_, _ = c.shake.Write(ciphertext[:c.CiphertextSize()])
 	_, _ = c.shake.Read(secret[:c.SharedSecretSize()])
 	return nil
 }
-- 
2.43.0


From 201a7a65feba1fc515c33443293ed6872db3d1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:35 +0000
Subject: [PATCH 12/15] fix: mkem: Encapsulate hashes the ciphertext only

A ciphertext buffer larger than CiphertextSize is accepted, but all of it was
hashed into the shared secret, so that Decapsulate got a different secret.
---
 kem/mkem/sike.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kem/mkem/sike.go b/kem/mkem/sike.go
index 150ebab..ef26a4c 100644
--- a/kem/mkem/sike.go
+++ b/kem/mkem/sike.go
@@ -144,7 +144,7 @@ func (c *KEM) Encapsulate(ciphertext, secret []byte, pub *sidh.PublicKey) error
 	// K = H(msg||(c0||c1))
 	c.shake.Reset()
 	_, _ = c.shake.Write(c.msg)
-	_, _ = c.shake.Write(ciphertext)
+	_, _ = c.shake.Write(ciphertext[:c.CiphertextSize()])
 	_, _ = c.shake.Read(secret[:c.SharedSecretSize()])
 	return nil
 }
-- 
2.43.0


From 6b4614633fd9f2d45dc89bb5a2e3d59ebd285b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:35 +0000
Subject: [PATCH 13/15] fix: mkem: Decapsulate re-encrypts the decrypted
 message

It re-encrypted the message left by the last Encapsulate on the same object, so
that a valid ciphertext was rejected after Reset or a failed Encapsulate.
---
 kem/mkem/sike.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kem/mkem/sike.go b/kem/mkem/sike.go
index ef26a4c..8a2635b 100644
--- a/kem/mkem/sike.go
+++ b/kem/mkem/sike.go
@@ -351,7 +351,7 @@ func (c *MultiKEM) Decapsulate(secret []byte, prv *sidh.PrivateKey, pub *sidh.Pu
 	_, _ = c.shake.Write(c.j[:skA.Params.SharedSecretSize])
 	_, _ = c.shake.Read(cti[:skA.Params.MsgLen])
 	for i := 0; i < skA.Params.MsgLen; i++ {
-		cti[i] ^= c.msg[i]
+		cti[i] ^= m[i]
 	}
 
 	// S is chosen at random when generating a key and unknown to other party. It is
-- 
2.43.0


From 0b3778ef61c4adee2f8c80edd09ef52c5b46cdcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:35 +0000
Subject: [PATCH 14/15] fix: mkem: reset the hash before using it in
 multi-recipient encryption

The first recipient's ciphertext was wrong after Enc or Dec were called on the
same object, as these leave the hash in the squeezing state.
---
 kem/mkem/csidh.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kem/mkem/csidh.go b/kem/mkem/csidh.go
index 8927754..58d98f4 100644
--- a/kem/mkem/csidh.go
+++ b/kem/mkem/csidh.go
@@ -94,9 +94,9 @@ func (c *MultiPKE) Encrypt(keys []csidh.PublicKey, pt *[16]byte) {
 	for i, pk := range keys {
 		csidh.DeriveSecret(&ss, &pk, &skA, c.Rng)
 
+		c.H.Reset()
 		c.H.Write(ss[:])
 		c.H.Read(ss[:16])
-		c.H.Reset()
 		for j := 0; j < 16; j++ {
 			c.Cts[i][j] = pt[j] ^ ss[j]
 		}
-- 
2.43.0


From 730433f748f01a49fca0965ead6a8a09138e7c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:35 +0000
Subject: [PATCH 15/15] fix: sidh: generated p434 2-torsion key is in the
 documented key space

SecretBitLen of that key, 216, is a multiple of 8. The top bit was then shifted
out, so that the generated key could be smaller than 2^(e2-1).
---
 dh/sidh/sidh.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dh/sidh/sidh.go b/dh/sidh/sidh.go
index b3e923b..ae28363 100644
--- a/dh/sidh/sidh.go
+++ b/dh/sidh/sidh.go
@@ -215,7 +215,7 @@ func (prv *PrivateKey) Generate(rand io.Reader) error {
 	// space starts from 0, but I'm not comfortable with having low
 	// value scalars used for private keys. It is still secrure as per
 	// table 5.1 in [SIKE].
-	prv.Scalar[len(prv.Scalar)-1] |= 1 << ((dp.SecretBitLen % 8) - 1)
+	prv.Scalar[(dp.SecretBitLen-1)/8] |= 1 << ((dp.SecretBitLen - 1) % 8)
 
 	return nil
 }
-- 
2.43.0

