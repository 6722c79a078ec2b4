#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as code so that entries stay schema-shaped).
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Keccak-f[1600] is the FIPS 202 permutation, in Go and in assembly",
 "For every 1600-bit state, the permutation used by SHA-3, SHAKE and cSHAKE maps it to the state FIPS 202 defines for 24 rounds of Keccak-f[1600]. This holds for the portable build and for the amd64 assembly build alike, and nothing but the state is written.",
 ["inputs","configurations"],"all 2^1600 input states; both build configurations (assembly, noasm)",
 "Tests hash a fixed KAT file, a few thousand states out of 2^1600; a wrong bit that depends on a rare state pattern is not sampled.",
 ["hash/sha3/keccakf.go","hash/sha3/keccakf_amd64.s","hash/sha3/keccakf_amd64.go"],
 [("unrolled rounds","hash/sha3/keccakf.go keccakF1600"),("complemented-lane assembly rounds","hash/sha3/keccakf_amd64.s mKeccakRound")],
 ["digest and XOF output"])
p("C02","SHA-3 and SHAKE output is FIPS 202's for any message and any chunking",
 "However a message is split over Write calls (including empty ones), the SHA3-224/256/384/512 digest and the SHAKE128/256 output stream are those FIPS 202 defines for the concatenated message. However output is split over Read calls, the concatenation of what they return is the one output stream, and Write and Read always report the full length of the buffer they were given.",
 ["inputs","histories"],"every message length and content, every split into Write calls, every split into Read calls, every variant",
 "Tests try one message length with two splits and byte-at-a-time reads of 32 bytes; buffer-boundary arithmetic over all (fill level, chunk length) pairs is not covered.",
 ["hash/sha3/sha3.go","hash/sha3/shake.go","hash/sha3/xor_unaligned.go","hash/sha3/xor_generic.go"],
 [("partial-block buffer","hash/sha3/sha3.go Write"),("padding","hash/sha3/sha3.go finalize_sha3"),("squeeze buffer","hash/sha3/sha3.go Read"),("word-wise absorption","hash/sha3/xor_unaligned.go")],
 ["hash.Hash / ShakeHash methods"],
 [("buffer fill level","bytes absorbed but not permuted, or squeezed but not read","hash/sha3/sha3.go state.idx")])
p("C03","SHA-3 hash objects honour hash.Hash and ShakeHash semantics",
 "Sum appends the digest to its argument without changing the hash, so Sum can be repeated and Write can continue afterwards; Reset returns an object to the state it had when created, whatever happened before. A Clone and its original evolve independently; Write after the first Read fails, reports 0 bytes and changes nothing; Size and BlockSize return the digest size and the rate of the variant.",
 ["histories","inputs"],"every sequence of Write, Read, Sum, Reset and Clone on any object, every Sum argument (nil, any length, any capacity)",
 "Tests exercise each method once from a fresh object; the guarantees are about arbitrary histories.",
 ["hash/sha3/sha3.go","hash/sha3/shake.go"],
 [("copy before squeezing","hash/sha3/sha3.go Sum"),("state reset","hash/sha3/sha3.go Reset, shake.go cshakeState.Reset"),("copying clone","hash/sha3/shake.go Clone"),("squeezing flag","hash/sha3/sha3.go Write")],
 ["hash.Hash / ShakeHash methods"])
p("C04","cSHAKE encodes N and S as SP 800-185 requires",
 "For every function-name string N and customization string S of any lengths, a new cSHAKE128 or cSHAKE256 object behaves as one that has absorbed bytepad(encode_string(N) || encode_string(S), rate) of SP 800-185 and uses the cSHAKE suffix; with both empty it is plain SHAKE. The same holds after Reset and for clones, and the caller's N and S may be modified afterwards without effect.",
 ["inputs","histories"],"every N and S (all lengths below 2^60 bytes), both strengths, before and after Reset and Clone",
 "Tests use two customization strings; the length-encoding and padding boundaries are not sampled.",
 ["hash/sha3/shake.go"],
 [("length encoding","hash/sha3/shake.go leftEncode"),("padding","hash/sha3/shake.go bytepad"),("initial block","hash/sha3/shake.go newCShake")],
 ["NewCShake128 / NewCShake256 output"])
p("C05","SM3 digest is the standard's for any message and any chunking",
 "However a message is split over Write calls, Sum(nil) returns the SM3 digest of the concatenated message as GB/T 32905 defines it, as a fresh 32-byte slice. Sum does not change the hash, so it can be repeated and writing can continue; Reset returns to the empty message; Write reports the full length of its input and no error.",
 ["inputs","histories"],"every message (shorter than 2^61 bytes), every split into Write calls, every interleaving with Sum and Reset",
 "Tests use fixed vectors and two splits; compression over all 2^768 inputs and all buffer fill levels is not sampled.",
 ["hash/sm3/sm3.go","hash/sm3/compress.go"],
 [("compression rounds","hash/sm3/compress.go compress"),("block buffering","hash/sm3/sm3.go Write"),("padding and length","hash/sm3/sm3.go Sum")],
 ["hash.Hash methods"],
 [("message length","total bytes, also buffer fill level","hash/sm3/sm3.go digest.len")])
p("C06","AES block cipher is FIPS 197's, in Go and with AES-NI",
 "For every 128, 192 or 256-bit key and every block, encryption gives the FIPS 197 ciphertext and decryption is its inverse; both the portable and the AES-NI implementation do so and write exactly 16 bytes. Keys of any other length are rejected with an error and leave the cipher as it was; blocks shorter than 16 bytes, and source and destination blocks that overlap without being the same block, cause a panic.",
 ["inputs","configurations"],"all keys of each size, all blocks, both implementations",
 "Tests use a handful of FIPS vectors; a wrong table entry or round for other keys and blocks is not sampled, and only one implementation runs.",
 ["drbg/internal/aes/generic.go","drbg/internal/aes/cipher.go","drbg/internal/aes/cipher_asm.go","drbg/internal/aes/asm_amd64.s","drbg/internal/aes/const.go"],
 [("T-tables and key schedule","drbg/internal/aes/generic.go"),("AES-NI rounds and key schedule","drbg/internal/aes/asm_amd64.s")],
 ["SetKey, Encrypt, Decrypt"])
p("C07","DRBG output is SP 800-90A CTR_DRBG (AES-256, no df) for every history",
 "After any sequence of instantiate, reseed and generate calls, the bytes returned are those SP 800-90A CTR_DRBG with AES-256 without derivation function yields for the same inputs zero-padded or cut to 48 bytes, for any requested length including ones that are not multiples of 16. Each call fills the whole output buffer and nothing else, reports its full length without error, and re-instantiation forgets all previous state.",
 ["inputs","histories"],"every entropy, personalization, reseed and additional input of any length, every requested length, every call sequence",
 "Tests use 64-byte outputs with full-length inputs; partial blocks, counter carries and longer histories are not covered.",
 ["drbg/ctr_drbg.go"],
 [("counter increment","drbg/ctr_drbg.go inc"),("state update","drbg/ctr_drbg.go update"),("block generation","drbg/ctr_drbg.go ReadWithAdditionalData"),("seeding","drbg/ctr_drbg.go Init, Reseed")],
 ["Init, Reseed, Read, ReadWithAdditionalData"],
 [("V and Key","CTR_DRBG working state","drbg/ctr_drbg.go CtrDrbg")])
p("C08","CPU feature flags report what CPUID says",
 "On amd64 the exported feature flags for AES, BMI2, ADX and RDSEED are set exactly when CPUID reports the feature (leaf 1 ECX bit 25; leaf 7 EBX bits 8, 19 and 18) and the CPU supports leaf 7. An implementation that needs an instruction set extension is selected only if the flag for that extension is set, and every implementation that can be selected gives the same results.",
 ["configurations"],"every value CPUID may return",
 "Tests run on one CPU.",
 ["utils/cpuid_amd64.go","utils/cpuid_amd64.s","utils/cpu.go","drbg/ctr_drbg.go","dh/csidh/fp511_amd64.go"],
 [("feature detection","utils/cpuid_amd64.go init"),("cipher selection","drbg/ctr_drbg.go NewCtrDrbg"),("multiplier selection","dh/csidh/fp511_amd64.go"),("ADX/BMI2 guards","dh/sidh/internal/p*/core.go init")],
 ["exported flags"])
p("C09","CSIDH-512 field arithmetic is exact for all operands",
 "For all reduced operands, addition, subtraction, Montgomery multiplication, squaring and exponentiation modulo the CSIDH-512 prime give the exact result, fully reduced; comparison, equality, zero test, conditional swap, multi-word multiplication by a word and the quadratic-residue test are exact for all inputs. All selectable multiplier implementations agree and results may overwrite operands.",
 ["inputs","configurations"],"all pairs of operands in [0,p), all 512-bit values where the operation is not modular, both multiplier implementations, all aliasings",
 "Tests compare with math/big on random samples; carries with probability about 2^-64 are never reached.",
 ["dh/csidh/fp511.go","dh/csidh/fp511_amd64.go","dh/csidh/fp511_amd64.s","dh/csidh/consts.go"],
 [("Montgomery multiplication","dh/csidh/fp511_amd64.s mulBmiAsm, fp511.go mulGeneric"),("modular add and sub","dh/csidh/fp511.go"),("word multiplication and swap","dh/csidh/fp511_amd64.s")],
 ["field results as seen through public keys"])
p("C10","CSIDH curve arithmetic implements the Montgomery-curve group law",
 "Differential addition, doubling, combined doubling-and-addition and the scalar-multiplication ladder compute the x-coordinate of the corresponding multiple on the Montgomery curve for every curve coefficient, point and scalar. Isogeny evaluation computes the image of the point and of the curve coefficient under the isogeny of the given odd degree with the given kernel, and curve evaluation is x^3+Ax^2+x.",
 ["inputs"],"all field values for coordinates and coefficient, all 512-bit scalars, all odd isogeny degrees used",
 "Tests use a few recorded vectors.",
 ["dh/csidh/curve.go"],
 [("xAdd, xDbl, xDblAdd, xMul","dh/csidh/curve.go"),("odd-degree isogenies","dh/csidh/curve.go xIso"),("curve equation","dh/csidh/curve.go montEval")],
 ["public keys and shared secrets"])
p("C11","CSIDH keys round-trip and key generation stays in range",
 "Importing an exported private or public key restores an identical key whatever the receiving object held before, and exporting an imported one gives the same bytes; buffers of the wrong size are refused without a panic and without writing. A generated private key has every one of its 74 exponents in [-5,5], takes each exponent from one accepted random byte in order, and an RNG failure is returned as an error.",
 ["inputs","fault_sequences"],"all key byte strings, all buffer lengths, all RNG output streams and failures",
 "Tests round-trip one key and check one RNG.",
 ["dh/csidh/csidh.go"],
 [("key encoding","dh/csidh/csidh.go Import, Export"),("rejection sampling","dh/csidh/csidh.go GeneratePrivateKey")],
 ["Import, Export, GeneratePrivateKey"])
p("C12","CSIDH refuses invalid public keys and derives by the group action",
 "Public keys whose value is not below the field prime, or which are the singular coefficients 2 and -2, are rejected by validation, and a rejected key makes secret derivation fail without touching the output or the key. For an accepted key the derived secret is the encoded result of acting with the private exponents on that key: each prime degree l_i with non-zero exponent e_i is used exactly |e_i| times, in the direction of its sign, each time with a kernel point of order l_i; both parties' inputs are left unchanged.",
 ["inputs","histories"],"all 512-bit public keys, all exponent vectors in range, all RNG streams",
 "Tests check a few valid and invalid keys.",
 ["dh/csidh/csidh.go","dh/csidh/consts.go"],
 [("range and singularity checks","dh/csidh/csidh.go Validate"),("order check","dh/csidh/csidh.go cofactorMul"),("group action","dh/csidh/csidh.go groupAction"),("rejection","dh/csidh/csidh.go DeriveSecret")],
 ["Validate, DeriveSecret, GeneratePublicKey"])
p("C13","SIDH base-field arithmetic is exact for p434, p503 and p751",
 "For each of the three primes, base-field addition, subtraction, integer multiplication, Montgomery reduction, double-width addition and subtraction, final reduction and conditional swap give the exact result within the documented operand and result ranges, for every operand in range. This holds for every implementation that can be selected (generic Go, and assembly with and without the MULX/ADX extensions), and when the result overwrites an operand.",
 ["inputs","configurations"],"all operands in [0,2p) (or the documented wider range), all selectable implementations, all aliasings used",
 "Tests compare against math/big on random samples, so carries that occur with probability 2^-64 are not reached; the noasm code for p434 does not run.",
 ["dh/sidh/internal/p434/arith_amd64.s","dh/sidh/internal/p503/arith_amd64.s","dh/sidh/internal/p751/arith_amd64.s","dh/sidh/internal/p503/arith_generic.go","dh/sidh/internal/p751/arith_generic.go"],
 [("add/sub with correction","arith_amd64.s, arith_generic.go fpAddRdc, fpSubRdc"),("Karatsuba and MULX multiplication","arith_amd64.s fpMul"),("Montgomery reduction","arith_amd64.s fpMontRdc"),("final reduction","rdcP")],
 ["public keys and shared secrets"])
p("C14","SIDH quadratic-field arithmetic and encodings conversions are exact",
 "For each of the three primes, addition, subtraction, multiplication, squaring and inversion in GF(p^2), the simultaneous inversion of three elements, and conversion to and from Montgomery form compute the exact field result for all elements, results stay in the range the next operation expects, and results may overwrite operands. Conversion out of Montgomery form yields the unique representative below p.",
 ["inputs"],"all pairs of elements of GF(p^2) in their lazily reduced representation, for the three primes",
 "Tests sample random elements.",
 ["dh/sidh/internal/p434/fp2.go","dh/sidh/internal/p503/fp2.go","dh/sidh/internal/p751/fp2.go"],
 [("Karatsuba mul, complex squaring","fp2.go mul, sqr"),("exponentiation by (p-3)/4","fp2.go p34"),("inversion","fp2.go inv"),("Montgomery conversion","fp2.go ToMontgomery, FromMontgomery")],
 ["public keys and shared secrets"])
p("C15","SIDH point and isogeny formulas are exact on every Montgomery curve",
 "For each of the three primes, point doubling, tripling, differential addition and the three-point ladder compute the x-coordinates of the corresponding points for every curve, point and scalar. Degree-3 and degree-4 isogenies computed from a kernel point give the codomain curve and the images of points under that isogeny, the curve coefficient recovered from three x-coordinates is that of the curve containing the points, and the j-invariant is that of the curve.",
 ["inputs"],"all coordinates and coefficients in GF(p^2), all scalars of the key length",
 "Tests check a few identities on recorded points.",
 ["dh/sidh/internal/p434/curve.go","dh/sidh/internal/p503/curve.go","dh/sidh/internal/p751/curve.go"],
 [("xDbl, xTpl, xDbladd","curve.go"),("ladder","curve.go ScalarMul3Pt"),("isogenies","curve.go isogeny3, isogeny4"),("Jinvariant, RecoverCoordinateA","curve.go")],
 ["public keys and shared secrets"])
p("C16","SIDH public keys and secrets come from the isogeny with the key's kernel",
 "For every private scalar k, the public key is the image of the other party's basis P, Q and P-Q under the composition of isogenies whose kernel is generated by P+[k]Q in the own torsion group, each step using a point of the exact order 3 or 4 on the current curve; the shared secret is the j-invariant of the codomain obtained the same way from the other party's public points. This holds for both torsion groups and the three primes, with the peer's key unchanged.",
 ["inputs"],"all scalars of the key length and all public-key values, for the three primes and both sides",
 "Tests run a few key exchanges; a wrong traversal step that cancels out between the two sides, or a changed constant, is not always visible.",
 ["dh/sidh/internal/p434/core.go","dh/sidh/internal/p503/core.go","dh/sidh/internal/p751/core.go","dh/sidh/internal/p434/params.go","dh/sidh/internal/p503/params.go","dh/sidh/internal/p751/params.go"],
 [("strategy traversal","core.go traverseTree*"),("key generation and derivation","core.go PublicKeyGenA/B, DeriveSecretA/B"),("domain parameters and strategies","params.go")],
 ["GeneratePublicKey, DeriveSecret"])
p("C17","SIDH keys round-trip, are size-checked and lie in the key space",
 "Importing the exported form of a private or public key restores an equivalent key whatever the receiving key held before, exporting an imported canonical key gives the same bytes (components below p, little-endian, P, Q, P-Q order), and input of the wrong size is an error that leaves the key unchanged. A generated private scalar lies in the documented key space with its top bit set, is otherwise taken unmodified from the random source, and a failing random source is reported as an error.",
 ["inputs","fault_sequences"],"all key byte strings and lengths, all random streams and failures, all primes and key variants",
 "Tests round-trip a few keys into fresh objects.",
 ["dh/sidh/sidh.go","dh/sidh/common/utils.go"],
 [("encoding of field elements","dh/sidh/common/utils.go BytesToFp2, Fp2ToBytes"),("import/export","dh/sidh/sidh.go"),("masking","dh/sidh/sidh.go Generate")],
 ["Import, Export, Generate"])
p("C18","SIKE KEM follows the specified Fujisaki-Okamoto transform",
 "For every key pair, random message and history of earlier operations, encapsulation outputs exactly the ciphertext and secret the SIKE specification defines from message and public key, and decapsulation of that ciphertext with the private key yields the same secret. For every other ciphertext of the right length decapsulation yields the hash of the private key's random value and that ciphertext, without error; wrong sizes, key types or a failing random source are reported before any output is written.",
 ["inputs","histories","fault_sequences"],"all messages, keys, ciphertexts (valid and modified in any way), buffer sizes, random source failures, and preceding operations on the same object; all three primes",
 "Tests flip single positions of a few ciphertexts and use KATs; other modifications, reused objects and larger buffers are not covered.",
 ["dh/sidh/sike.go","dh/sidh/common/utils.go","kem/mkem/sike.go"],
 [("re-encryption check","sike.go Decapsulate"),("implicit rejection","common/utils.go Cpick"),("hash inputs","sike.go Encapsulate, Decapsulate, generateCiphertext, decrypt")],
 ["Encapsulate, Decapsulate"])
p("C19","Multi-recipient SIKE KEM gives every recipient the same secret",
 "For any number of recipients, encapsulation yields one secret, one shared ephemeral public key and one ciphertext per recipient, as the multi-recipient transform with separated hash domains defines them, and each recipient's decapsulation of its ciphertext yields that secret, whatever happened earlier on the object. A modified ciphertext or ephemeral key, or another recipient's ciphertext, yields the hash of the private key's random value instead; wrong sizes and key types are refused.",
 ["inputs","histories"],"all messages, any number of recipients and keys, all modifications of ciphertexts, all preceding operations; all three primes",
 "Tests run ten recipients with one object right after encapsulation.",
 ["kem/mkem/sike.go"],
 [("per-recipient ciphertexts","kem/mkem/sike.go MultiKEM.Encapsulate"),("re-encryption check","kem/mkem/sike.go MultiKEM.Decapsulate")],
 ["MultiKEM.Encapsulate, MultiKEM.Decapsulate"])
p("C20","CSIDH public-key encryption decrypts to the encrypted message",
 "For valid keys, single-recipient encryption outputs the ephemeral public key and the message masked with the first 16 bytes of SHAKE128 of the shared secret between ephemeral key and recipient, and decryption removes exactly that mask with the secret derived from its own key and the ephemeral public key. Multi-recipient encryption does the same for each recipient in order with one common ephemeral key, whatever was encrypted or decrypted before on the same object.",
 ["inputs","histories"],"all messages and keys, any number of recipients, all preceding operations on the object",
 "Tests run a fixed number of recipients once on a fresh object.",
 ["kem/mkem/csidh.go"],
 [("mask derivation","kem/mkem/csidh.go Enc, Dec, Encrypt")],
 ["PKE.Enc, PKE.Dec, MultiPKE.Encrypt"])
p("C21","Both parties of a key agreement derive the same secret",
 "For every pair of honestly generated SIDH or CSIDH keys the secrets the two parties derive are equal.",
 ["inputs"],"all pairs of private keys",
 "Tests run a bounded number of exchanges.",
 ["dh/sidh/sidh.go","dh/csidh/csidh.go"],
 [("commutativity of isogeny walks / class group action","mathematical")],
 ["DeriveSecret"])
p("C22","Secret-dependent timing is absent from SIDH operations",
 "The sequence of instructions and memory addresses of key generation, secret derivation and decapsulation does not depend on secret values.",
 ["inputs"],"all secrets",
 "Tests do not observe timing.",
 ["dh/sidh/sidh.go","dh/sidh/sike.go"],
 [("masked selection","common/utils.go Cpick; arith cswap")],
 ["timing"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
