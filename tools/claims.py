# per-property technique and level note, see mkmanifest.py
TECH['C05'] = ('contracts on compress, Write, Sum, Reset, New; symbolic execution with inferred loop invariants (fold over the block stream), discharged by word-level normal forms with per-step cut points and z3', 'unbounded in message length and chunking (block loop by induction); Sum of a non-empty argument bounded to listed lengths')
TECH['C06'] = ('contracts on SetKey, Encrypt, Decrypt of AES and AESAsm (including the AES-NI assembly); symbolic execution to verification conditions discharged by normal forms', 'unbounded: all keys, blocks and buffer lengths')
TECH['C02'] = ('contracts on Write, Read, Sum\'s padding, xorIn/copyOut and the constructors over the keccakF1600 contract; symbolic execution with inferred loop invariants (fold over the block stream), canonical terms and z3', 'unbounded in message length, chunking and output length; per variant, fill level and build configuration')
TECH['C03'] = ('contracts (postconditions and frame conditions) on Sum, Reset, Clone, Write after Read, Size, BlockSize for arbitrary object states; symbolic execution, canonical terms and z3', 'unbounded: all object states and argument lengths; argument capacities enumerated around the digest size')
TECH['C04'] = ('contracts on NewCShake128/256, Reset and Clone over the Write contract, with symbolic string lengths; symbolic execution, linear arithmetic and z3', 'unbounded in the lengths (below 2^48) and contents of N and S')
TECH['C07'] = ('contracts on inc, Init, Reseed, Read, ReadWithAdditionalData and NewCtrDrbg over the AES contract; symbolic execution with an inferred loop invariant (counter fold), canonical terms and z3', 'unbounded: all states, all input and output lengths, both ciphers')
TECH['C08'] = ('contract on the CPU-feature initialiser executed down to the CPUID instruction (uninterpreted), and instruction-feature obligations on every dispatching function for all flag combinations; symbolic execution and z3', 'all CPUID answers; agreement of the implementations is decided by C01, C06, C09, C13')
TECH['C09'] = ('contracts (exact integer postconditions, ranges, frames) on addRdc, subRdc, mulRdc, mul512, mul576, sub512, cswap512, isLess, isZero, equal, modExpRdc512/64, isNonQuadRes, in Go and in assembly, for every aliasing; symbolic execution, obligations discharged by integer-polynomial carry elimination, z3, and field-element contracts for the callers', 'unbounded: all operands, all exponents, four build/CPU configurations')
TECH['C13'] = ('contracts (exact integer postconditions, ranges, frames) on addP, subP, adlP, sulP, modP, cswapP, mulP, rdcP of p434, p503, p751, in Go and in assembly, for every aliasing; symbolic execution, obligations discharged by integer-polynomial carry elimination', 'unbounded: all operands in the documented ranges, every build/CPU configuration')
TECH['C14'] = ('contracts (exact field postconditions, ranges, frames, zero padding) on mulP, p34, add, sub, mul, sqr, inv, cswap, Fp2Batch3Inv, ToMontgomery, FromMontgomery over the base-field contracts of C13, for every aliasing; symbolic execution, polynomial identities over GF(p)', 'unbounded: all elements in the lazily reduced representation, three primes')
TECH['C11'] = ('contracts (postconditions, frames, refusal of wrong sizes) on PrivateKey/PublicKey Import and Export and GeneratePrivateKey; symbolic execution with symbolic buffer lengths; the rejection-sampling loop by an inductive invariant over all loop states, discharged by canonical terms and z3', 'unbounded: all contents, all buffer lengths, all random streams')
TECH['C17'] = ('contracts (postconditions, frames, refusal of wrong sizes) on key Import, Export, Size, constructors and Generate over the Montgomery-conversion contracts of C14 and the io.ReadFull contract; symbolic execution with symbolic buffer lengths, canonical terms', 'unbounded: all contents, all buffer lengths, all random streams; three primes, three key variants')
TECH['C18'] = ('contracts (postconditions against the SIKE specification, frames, refusals before output) on Encapsulate, Decapsulate, Allocate, Reset and the helpers, of dh/sidh and kem/mkem, over the contracts of SHAKE256, key encodings and SIDH key operations; symbolic execution with uninterpreted contract functions, canonical terms', 'unbounded: all keys, messages, ciphertexts, buffer lengths and object histories; agreement of the two parties (C21) is an assumption of the round-trip obligation')
TECH['C19'] = ('contracts (postconditions against the multi-recipient transform, frames, refusals) on MultiKEM Allocate, Encapsulate, Decapsulate over the contracts of SHAKE256, key encodings and SIDH key operations; the loop over the recipients by an inductive invariant; symbolic execution with uninterpreted contract functions, canonical terms', 'unbounded: all keys, messages, ciphertexts, any number of recipients (below 2^32), any object history; agreement of the two parties (C21) is an assumption of the round-trip obligation')
TECH['C20'] = ('contracts (postconditions, frames) on PKE Allocate, Enc, Dec and MultiPKE Allocate, Encrypt over the contracts of SHAKE128 and the CSIDH operations; the loop over the recipients by an inductive invariant; symbolic execution with uninterpreted contract functions, canonical terms', 'unbounded: all messages and keys, any number of recipients (below 2^32), any object history; agreement of the two parties (C21) is an assumption of the round-trip obligations; one recorded finding for refused public keys')
TECH['C15'] = ('contracts (postconditions as rational functions of the inputs, ranges, frames) on every point and isogeny function of curve.go over the GF(p^2) contracts of C14; Pow2k/Pow3k by loop induction over a symbolic k; the ladder over the point contract of xDbladd with the point multiples as ghost state, polynomials in the scalar bits; polynomial identities over GF(p), and lemmas tying the formulas to the chord-and-tangent law and to the isogenies', 'unbounded: all curves, points, scalars and numbers of steps; the ladder for the scalar lengths of the parameter sets (fully unrolled); points of the ladder basis assumed independent (no exceptional differences)')
TECH['C16'] = ('contracts on PublicKeyGenA/B and DeriveSecretA/B over the point, isogeny, ladder and GF(p^2) contracts of C14/C15: the code is executed with ghost points (curve of the chain, base point, power of l), every isogeny step must get a kernel of the exact order on the current curve, every evaluated point must lie on it; evaluation of the base points in GF(p^2); dispatch of the key methods', 'unbounded: all scalars, all peer keys whose points form a basis of the torsion group; three parameter sets, both groups; the strategy trees are fully unrolled')
TECH['C10'] = ('contracts (postconditions as rational functions of the inputs, ranges, frames) on xAdd, xDbl, xDblAdd, cswappoint, montEval, xMul, xIso over the field contracts of C09; xMul over the point contracts with the multiples as ghost state, polynomials in the scalar bits; xIso for each of the 74 degrees with the kernel multiples as ghost state; polynomial identities over GF(p), lemmas tying the formulas to the chord-and-tangent law and to isogenies', 'unbounded: all coordinates and coefficients, all non-zero 512-bit scalars, all 74 degrees; points of the exact order as the kernel (precondition)')
TECH['C12'] = ('contracts on groupAction, Validate, cofactorMul, randFp, DeriveSecret, GeneratePublicKey over the field, curve and isogeny contracts of C09/C10: symbolic execution with path merging; ghost state (orders of points as conditional products of the primes, curve of the chain and steps taken per prime), inductive invariants on the loops over random points, every range of the recursion of cofactorMul against its own contract; discharged by canonical terms and z3', 'unbounded: all keys, all exponents of four bits, all random streams, any number of rounds; partial correctness (the loops end with probability 1); that the collected order decides supersingularity (Hasse interval) and that the action starts on a supersingular curve are the mathematics the contracts rest on')
