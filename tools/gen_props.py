#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the wording has one source)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=False):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": [observe], "hook_needed": None}
    if state: a["state"] = [{"name": x.strip(), "where": w} for x, w in [(state, files[0])]]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
C = "falcon/nistfalcon/src/"
Y = "pythonref/"
S = "src/"

prop("C01", "C sign then open returns exactly the signed message, FALCON and ETHFALCON",
 "For every key pair the C library generates and every message of any length (empty, short, or many kilobytes), signing succeeds and opening the result with the matching public key returns exactly that message and its length; this holds for the compressed and for the 16-bit (EVM) signature format, with SHAKE-256 and with Keccak hashing, also when input and output buffers overlap. "
 "The signed message has the documented layout (signature length, 40-byte salt, message, signature header and body) and never exceeds the message length plus the advertised maximum overhead. "
 "If an operation cannot be carried out for an input, it reports an error instead of returning a signature or message that does not cover it.",
 ["inputs", "configurations"], "every seed, randomness stream, message content and length, build variant (SHAKE/Keccak), signature format (compressed/16-bit) and buffer aliasing",
 "The KAT programs sign 100 fixed messages of lengths 33..3300 with one randomness stream; they never reach empty or larger messages, overlapping buffers, or other keys and signature coefficient patterns.",
 [C+"nist.c", C+"nist16.c", C+"sign.c", C+"codec.c", C+"api.h"],
 [("signed-message framing", C+"nist.c crypto_sign / crypto_sign_open"), ("16-bit framing", C+"nist16.c"), ("signing loop with norm rejection", C+"sign.c sign_dyn")],
 "return codes, output message and length of the C signing and opening calls")

prop("C02", "C verification accepts exactly the signatures the Falcon equation allows",
 "A signed message is accepted by the C library if and only if its header, lengths and encodings are well formed and, with s1 = c - s2*h mod (q, x^512+1) centred around zero, the squared norm of (s1, s2) is at most 34034726, where c is the specified hash of salt and message. "
 "This is decided identically for the compressed and the 16-bit format and for SHAKE-256 and Keccak hashing, including vectors exactly at and just beyond the norm bound, non-canonical coefficients and adversarially constructed s2 that were not produced by the signer.",
 ["inputs"], "every byte string offered as signed message and every byte string offered as public key",
 "Tests only open honestly produced signatures; a verifier that ignores part of the vector, mis-centres a residue, is off by one at the bound or skips an encoding rule passes them all.",
 [C+"nist.c", C+"nist16.c", C+"vrfy.c", C+"common.c", C+"codec.c"],
 [("verification equation", C+"vrfy.c verify_raw"), ("norm bound", C+"common.c is_short"), ("signature decoding", C+"codec.c comp_decode, comp_decode16"), ("opening", C+"nist.c, nist16.c")],
 "return code of the opening calls on constructed inputs")

prop("C03", "A signed message cannot be altered, re-encoded or moved to another key",
 "After signing, changing any bit of the signed message bundle, or of the public key (unless the altered key satisfies the verification equation too, as happens where s2 has a zero NTT coefficient), truncating or extending the bundle, or splicing parts of different bundles makes opening fail: no second byte string derived from a valid bundle by re-encoding the same signature is accepted for the same message. "
 "This holds for the compressed, 16-bit and EPERVIER formats of the C library.",
 ["inputs", "histories"], "every signed bundle and every alteration: bit flips, byte edits, truncations, extensions, alternative encodings of a coefficient, splices between bundles and keys",
 "A test can flip a handful of bits; malleability hides in specific alternative encodings (padding bits, unchecked header bytes, values above the modulus, ignored trailing bytes).",
 [C+"nist.c", C+"nist16.c", C+"epervier16.c", C+"codec.c"],
 [("padding and minus-zero checks", C+"codec.c comp_decode"), ("16-bit coefficient range", C+"codec.c comp_decode16"), ("length checks", C+"nist.c, nist16.c, epervier16.c")],
 "return code of opening an altered bundle")

prop("C04", "Hostile bytes never make the C library read or write out of bounds",
 "For arbitrary bytes given as signed message, public key, secret key or encoded polynomial, of any length, every opening, signing, key-conversion and decoding entry point returns a result without reading outside the supplied lengths, without writing outside the advertised output sizes and without undefined behaviour, and does so in bounded time (signing, for secret keys that are refused or decode to an NTRU basis).",
 ["inputs"], "every byte string and length for each C entry point",
 "Out-of-bounds reads on malformed lengths are silent in ordinary tests and never occur with valid vectors.",
 [C+"nist.c", C+"nist16.c", C+"epervier16.c", C+"codec.c", C+"vrfy.c", C+"keccak_prng.c"],
 [("length and header parsing", C+"nist.c crypto_sign_open, nist16.c, epervier16.c"), ("decoders", C+"codec.c")],
 "sanitizer reports and guard bytes around exactly sized buffers")

prop("C05", "Generated keys are valid NTRU keys, consistent and reproducible from the seed",
 "Every key pair produced by the C library decodes to short f, g, F with an integer G such that f*G - g*F = q modulo x^512+1, the public key is g/f modulo q with canonical coefficients (in the NTT domain for the EVM format), f is invertible, and the secret and public encodings have the exact advertised sizes and headers. "
 "The same seed of at least 32 bytes always gives the same pair in both formats, different seeds give different pairs, shorter seeds are refused, and the seed length and all its bytes matter.",
 ["inputs"], "every seed of every length and every randomness stream",
 "KAT files pin 100 keys; a key generation defect that appears for some coefficient ranges, seed lengths or retry paths is outside them.",
 [C+"keygen.c", C+"nist.c", C+"nist16.c", C+"vrfy.c"],
 [("NTRU solver", C+"keygen.c"), ("key encoding", C+"nist.c crypto_sign_keypair*"), ("public key from f,g", C+"vrfy.c compute_public")],
 "decoded key pairs checked with exact integer arithmetic")

prop("C06", "Key and signature encodings are exact inverses and reject non-canonical input",
 "For every polynomial within the documented range, encoding and then decoding returns the same polynomial and consumes exactly the advertised number of bytes, for each degree and bit width; encoders refuse out-of-range coefficients or too small buffers, and asking only for the size gives the size actually written. "
 "For every byte string, a decoder that accepts returns in-range coefficients whose re-encoding is the consumed input, and every other byte string is refused; this covers the 14-bit, 16-bit, fixed-width signed and compressed encodings.",
 ["inputs"], "all coefficient vectors, degrees 2^1..2^10, bit widths, buffer capacities and arbitrary byte strings",
 "Round trips on honest keys never visit range limits, padding bits, forbidden zero encodings or too small buffers.",
 [C+"codec.c"],
 [("public key coding", C+"codec.c modq_encode/modq_decode and 16-bit variants"), ("secret key coding", C+"codec.c trim_i8_*, trim_i16_*"), ("signature coding", C+"codec.c comp_encode/comp_decode and 16-bit variants")],
 "return values and buffers of the encoders and decoders")

prop("C07", "NIST and EVM formats describe the same key and the same signature",
 "Given the same seed, the C library's NIST and EVM key generators give the same secret key, and the EVM public key is the forward negacyclic NTT (the transform used on chain) of the NIST public key; given the same secret key, message and randomness the two signers give the same salt and the same s2 vector. "
 "Converting a key or signature from one format to the other therefore never changes whether a message verifies.",
 ["inputs", "configurations"], "all seeds, messages, randomness streams and both hash variants",
 "Separate KAT programs exercise each format on its own; nothing relates one format to the other.",
 [C+"nist.c", C+"nist16.c", C+"vrfy.c", C+"codec.c"],
 [("EVM key output", C+"nist16.c"), ("NTT output", C+"vrfy.c to_ntt")],
 "bytes produced by both signers and key generators under the same randomness")

prop("C08", "EPERVIER: the recovered key is the signer's key and nothing else is accepted",
 "For every generated key pair (with its EPERVIER public key) and message, an EPERVIER signature opens to exactly the message, carries a short (s1, s2) with s1 + s2*h equal to the hash of salt and message, an invertible s2 and a hint equal to the inverse of the product of the NTT coefficients of s2. "
 "Opening fails for any other key, message, salt or signature vector, and for bundles of wrong length; recovery returns the unique h satisfying the equation, and fails when s2 is not invertible or the pair is too long.",
 ["inputs"], "all keys, messages, randomness streams and altered bundles",
 "The only existing KAT program for this mode does not pass, so no test constrains it; recovery must be right for every vector, and rejection for every non-vector.",
 [C+"epervier16.c", C+"vrfy.c"],
 [("signing with invertible s2", C+"epervier16.c zknox_crypto_sign_epervier"), ("recovery", C+"vrfy.c verify_recover, verify_recover_epervier"), ("hint", C+"vrfy.c hint_epervier")],
 "return codes, recovered key and hint")

prop("C09", "C sponge and Keccak generators depend only on bytes absorbed, not on chunking",
 "For every sequence of absorb calls followed by every sequence of squeeze calls, the C SHAKE-256 and Keccak generators output exactly SHAKE-256 of the concatenated input, respectively Keccak-256(Keccak-256(input) || 64-bit big-endian counter) blocks, independently of how input and output are split; the C Keccak-256 equals the standard one for every input split. "
 "Misuse is refused without altering the state: absorbing after finalisation, squeezing before it, or more input than the buffer holds.",
 ["histories", "inputs"], "all absorb/finalise/squeeze call histories and contents, including lengths around the 136-byte and 32-byte block boundaries and the 4096-byte buffer",
 "KATs use one chunking; block-boundary mistakes show only for particular length splits.",
 [C+"shake.c", C+"keccak_prng.c", C+"keccak256.c"],
 [("SHAKE streaming", C+"shake.c"), ("Keccak counter generator", C+"keccak_prng.c"), ("Keccak-256", C+"keccak256.c")],
 "bytes squeezed and return codes", state="absorb buffer, position, counter, finalised flag")

prop("C11", "Deterministic generators give the standard keystreams for any request pattern",
 "The C and Python AES-256 counter DRBGs give exactly the NIST SP 800-90A CTR_DRBG (no derivation function) output for every 48-byte seed, optional personalisation string and sequence of request sizes, reject invalid arguments, and the block cipher under it is AES-256. "
 "The signer's ChaCha20-based generator in C and in Python yields one and the same keystream for a given seed however the bytes, bits or 64-bit words are requested.",
 ["histories", "inputs"], "all seeds and all sequences of request sizes",
 "The KATs fix one seed chain and request sizes 48 and 40; counter carries, buffer refills and odd sizes are not reached.",
 [C+"katrng.c", C+"rng.c", Y+"drbg/aes256_ctr_drbg.py", Y+"rng.py"],
 [("CTR-DRBG", C+"katrng.c randombytes, "+Y+"drbg/aes256_ctr_drbg.py"), ("ChaCha20 generator", C+"rng.c prng_refill, "+Y+"rng.py")],
 "generated bytes after each request", state="key, counter V, buffer position")

prop("C12", "Operations are independent: results depend only on arguments and random bytes",
 "Over every interleaving of key generation, signing and opening with several keys, formats and messages, each call returns exactly what it returns when made alone with the same arguments and the same random bytes, and leaves its inputs unchanged. "
 "Each signature uses 40 salt bytes and a signing seed freshly drawn from the random source for that call, so two signatures never share a salt unless the random source repeats.",
 ["histories"], "all sequences of library calls with all arguments",
 "State carried from one call to the next (a static buffer, an in-place conversion of a key, a reused salt) is invisible in tests that make each call once per vector.",
 [C+"nist.c", C+"nist16.c", C+"epervier16.c", C+"sign.c", C+"katrng.c"],
 [("salt and seed draw", C+"nist.c, nist16.c, epervier16.c"), ("temporaries", C+"nist.c TEMPALLOC")],
 "outputs of each call in a history and the random requests made", state="random source, any static data")

prop("C14", "The integer-emulated floating point agrees bit for bit with IEEE-754 doubles",
 "For all finite normal operands whose exact result is zero or normal, the C library's emulated add, subtract, multiply, divide, square root, negate, halve, double, compare, scale and integer conversions (round to nearest even, floor, truncate) equal the IEEE-754 double result. "
 "The emulated fixed-point exponential used by the sampler is within the precision the specification requires on its whole domain.",
 ["inputs"], "all pairs of doubles (sign, exponent, mantissa) within the documented range",
 "Signatures still verify when rounding is wrong in rare mantissa patterns, so KATs catch only errors on the paths of a few vectors; the loss is in distribution, hence security.",
 [C+"fpr.c", C+"fpr.h"],
 [("emulated arithmetic", C+"fpr.c fpr_add, fpr_mul, fpr_div, fpr_sqrt, fpr_scaled, fpr_expm_p63"), ("inline conversions", C+"fpr.h")],
 "bit pattern of each result")

prop("C15", "FFT, NTT, split/merge, LDL and division implement exact polynomial arithmetic",
 "In C and in Python, transforming to the frequency domain and back is the identity, and sums, products, adjoints, quotients, split/merge, norm and LDL decomposition computed there agree with schoolbook arithmetic modulo x^n+1 (exactly modulo q, to a tight tolerance over the reals), for every degree from 2 to 1024 that the operation supports.",
 ["inputs"], "all polynomials with coefficients in the working range and all degrees",
 "Tests multiply a few random polynomials at one degree; sign, index or reduction mistakes at particular degrees or coefficient extremes survive.",
 [C+"fft.c", C+"vrfy.c", Y+"fft.py", Y+"common.py", Y+"ffsampling.py", Y+"ntrugen.py"],
 [("C FFT", C+"fft.c"), ("C NTT mod q", C+"vrfy.c mq_NTT, mq_iNTT"), ("Python FFT", Y+"fft.py"), ("LDL", Y+"ffsampling.py")],
 "output coefficients compared with schoolbook results")

prop("C16", "Gaussian and lattice samplers follow the specification in C and Python",
 "For every centre, standard deviation in the allowed range and random stream, the C and the Python integer samplers return the same integer, equal to that of a reference model of the specified algorithm, and across streams their output distribution matches the discrete Gaussian with that centre and deviation. "
 "The lattice sampler built on them always returns an integer lattice point: signing yields s1 + s2*h = c mod q with norm within the bound and the norms over many signatures match the specified Gaussian width, and for the same random bytes both C procedures (tree and dynamic) and Python give the same signature at every degree (but for the rare draw whose outcome hangs on a rounding). The norm tests of the signing and verifying code are exact for every degree, the bound included.",
 ["inputs", "configurations"], "all centres, deviations, random byte streams, targets and trees",
 "A biased sampler still gives signatures that verify; fixed vectors cover few centres and cannot see distribution errors.",
 [Y+"samplerz.py", Y+"ffsampling.py", C+"sign.c"],
 [("Python sampler", Y+"samplerz.py"), ("C sampler", C+"sign.c sampler, gaussian0_sampler, BerExp"), ("fast Fourier sampling", Y+"ffsampling.py, "+C+"sign.c ffSampling_fft*")],
 "integers returned, random bytes consumed, empirical moments and frequencies")

prop("C17", "Secret values steer no branch or memory access of the constant-time C code",
 "The C code that handles secrets and is written to be constant-time takes the same branches and touches the same memory addresses whatever the values are, as long as sizes and success are the same: every operation of the emulated floating point (fpr), the FFT and polynomial functions, key expansion, coding of private key elements, computing the public key and completing the private key from valid elements, the mod q transforms, the norm tests, hash_to_point_ct, SHAKE256, the Keccak generator and ChaCha20, and the half-Gaussian sampler. "
 "One call of the Gaussian sampler takes a path that depends only on how many attempts and random bytes it used.",
 ["inputs"], "all pairs of operands, polynomials, keys, states and random bytes of equal sizes",
 "No functional test can see it: an early exit for a zero operand, a skipped butterfly or a loop that stops at the first match gives the same results, and leaks the key through timing or the cache.",
 [C+"fpr.c", C+"fpr.h", C+"fft.c", C+"sign.c", C+"common.c", C+"vrfy.c", C+"codec.c", C+"shake.c", C+"rng.c", C+"inner.h"],
 [("constant-time assumptions", C+"fpr.h"), ("constant-time hash-to-point", C+"inner.h hash_to_point_ct, "+C+"common.c"), ("half-Gaussian table", C+"sign.c gaussian0_sampler, BerExp"), ("mod q arithmetic", C+"vrfy.c mq_*")],
 "sequence of basic blocks and of load/store addresses")

prop("P01", "Python sign then verify succeeds for every degree, message and hash variant",
 "For every supported degree from 2 to 1024, every generated or loaded secret key, every message the hash can absorb, every salt source and every hash variant (SHAKE-256, Keccak counter mode, Blake2s counter mode, Keccak XOF where offered), signing terminates with a signature of the fixed length that verifies under the key's public key, and the same randomness gives the same signature. "
 "The signature verifies only with the hash variant, message and key it was made with.",
 ["inputs", "configurations"], "all degrees, keys, messages (including empty and long), hash variants and randomness streams",
 "The upstream tests run a few random messages at a few degrees with a dependency that is not even installed here.",
 [Y+"falcon.py", Y+"ffsampling.py", Y+"encoding.py", Y+"keccak_prng.py", Y+"blake2s_prng.py", Y+"shake.py"],
 [("signing", Y+"falcon.py SecretKey.sign, sample_preimage"), ("verification", Y+"falcon.py PublicKey.verify"), ("compression", Y+"encoding.py")],
 "signature bytes and verification results")

prop("P02", "Python verification is total and accepts exactly what the specification allows",
 "For every byte string offered as a signature and every message, Python verification returns true or false without raising, and returns true exactly when the signature is not longer than the fixed length of its degree (missing bytes count as zero padding), its header is 0x20 or 0x30 plus the degree's logarithm, it decodes canonically with every bit after the last coefficient zero, and the squared norm of (s1, s2) is within the inclusive bound for the degree.",
 ["inputs"], "all byte strings as signature, all messages, all degrees and hash variants",
 "Tests only verify honest signatures; malformed or adversarial ones are never tried.",
 [Y+"falcon.py", Y+"encoding.py"],
 [("verification", Y+"falcon.py PublicKey.verify"), ("decompression", Y+"encoding.py decompress")],
 "return value or exception of verification")

prop("P03", "Python signature compression is a bijection onto its canonical strings",
 "For every integer vector and target length, compression returns either a string of exactly that length that decompresses to the same vector or a refusal when it does not fit; decompression of any byte string not longer than the target length returns a vector whose compression to the target length is that string followed by zero bytes, or refuses, and never raises. "
 "Its encoding is the same as the C library's compressed format.",
 ["inputs"], "all integer vectors, degrees, target lengths and byte strings",
 "Round trips of honest signatures never show padding, truncation and zero-encoding cases.",
 [Y+"encoding.py", C+"codec.c"],
 [("compress/decompress", Y+"encoding.py"), ("C counterpart", C+"codec.c comp_encode/comp_decode")],
 "returned strings, vectors and refusals")

prop("P04", "Python keys are valid NTRU keys and survive every serialisation unchanged",
 "For every degree and randomness stream, Python key generation yields f, g, F, G with f*G - g*F = q and public key g/f mod q; its NTRU solver is exact on every pair it accepts and refuses the others; a secret key built from the polynomials rebuilds the same public key. "
 "Public and secret keys serialised in any supported format (standard bytes, compact EVM words, key files of the command line tool) load back to the same key, in Python and in C, and malformed serialisations are refused.",
 ["inputs"], "all degrees, seeds, polynomials and serialised byte strings",
 "Key tests run on a few keys; serialisation of Falcon-1024 keys or malformed headers is never tested.",
 [Y+"ntrugen.py", Y+"falcon.py", Y+"falcon_codec.py", Y+"sign_cli.py"],
 [("NTRU generation and solving", Y+"ntrugen.py"), ("key objects", Y+"falcon.py"), ("NIST codecs", Y+"falcon_codec.py"), ("key files", Y+"sign_cli.py")],
 "decoded polynomials and serialised bytes")

prop("P05", "Python hash streams equal the standard functions for every input/output split",
 "For every input and every split of absorb and read calls, the Python SHAKE-256, SHA-3/Keccak, Keccak-counter, Keccak-XOF and Blake2s-counter classes output exactly the standard function they name (or the documented counter construction over it), a read of n bytes returns n bytes, and calls of the counter generators and the Keccak XOF in the wrong phase are refused.",
 ["histories", "inputs"], "all absorb/flip/read histories, contents and lengths including block boundaries",
 "Unit tests compare a few lengths and one split.",
 [Y+"shake.py", Y+"keccak.py", Y+"keccaxof.py", Y+"keccak_prng.py", Y+"blake2s_prng.py"],
 [("Keccak sponge", Y+"keccak.py"), ("counter generators", Y+"keccak_prng.py, blake2s_prng.py"), ("Keccak XOF", Y+"keccaxof.py")],
 "bytes read, lengths and exceptions", state="sponge state, buffer position, counter")

prop("P07", "Python key-recovery modes recover exactly the signer's key",
 "For every key, message and hash variant, a signature in either Python recovery mode (key recovery and EPERVIER) verifies under its own key, and recovering from the signature and message gives the key (or key digest) of the signer. "
 "Signatures of another length or header, or with inverse coefficients above the modulus, are refused; any altered signature or other message either fails or recovers a different key, never the signer's.",
 ["inputs"], "all degrees offered, keys, messages, alterations",
 "Upstream tests sign a couple of messages at one degree.",
 [Y+"falcon_recovery.py", Y+"falcon_epervier.py"],
 [("recovery", Y+"falcon_recovery.py"), ("EPERVIER", Y+"falcon_epervier.py")],
 "verification results and recovered keys")

prop("P08", "Command line tool: generated keys sign and verify, and tampering is detected",
 "For every version the tool offers and every message, keys it generates can be saved and loaded back unchanged, a signature it writes verifies with the matching public key file and not with another message, key or altered signature; on-chain call strings it prints contain the real arguments of the contract. "
 "Deterministic signing derives its randomness from the whole message and key, so distinct messages never share a salt, and a signed transaction covers every field of the transaction.",
 ["inputs", "histories"], "all versions, messages, transaction fields and command sequences",
 "The command line paths have no automated test at all.",
 [Y+"sign_cli.py", Y+"sig_sol.py"],
 [("file formats", Y+"sign_cli.py save_/load_ functions"), ("transaction hash", Y+"sign_cli.py transaction_hash"), ("deterministic randomness", Y+"sign_cli.py")],
 "files written, values printed and exit behaviour")

prop("P09", "Polynomial packing for EVM calldata is lossless and agrees across languages",
 "Packing 512 coefficients into 32 words of 256 bits and unpacking is the identity for every polynomial with 16-bit coefficients, in Python and in Solidity, with coefficient i in bits 16*(i mod 16) of word i div 16; the ABI encodings produced for signatures and keys decode to the same values; the script that signs for the contract tests gives the same output for the same seed and other key randomness and another salt for another seed.",
 ["inputs"], "all polynomials with coefficients below 2^16",
 "Vectors in the contract tests are a few fixed keys and signatures.",
 [Y+"common.py", Y+"falcon_codec.py", Y+"sig_sol.py", S+"ZKNOX_falcon_utils.sol", S+"ZKNOX_falcon_deploy.sol", S+"ZKNOX_common.sol"],
 [("Python packing", Y+"common.py falcon_compact/falcon_expand"), ("Solidity packing", S+"ZKNOX_falcon_utils.sol _ZKNOX_NTT_Compact/_Expand")],
 "packed words and unpacked coefficients")

prop("P10", "Blake2s implementation equals the standard for every message and split",
 "For every message, the Python Blake2s implementation gives the standard BLAKE2s digest, and its compression function is exact for every state, block, counter and final flag.",
 ["inputs"], "all messages, states, blocks and counters",
 "One fixed vector is asserted.",
 [Y+"blake2s/blake2s.py"],
 [("compression", Y+"blake2s/blake2s.py")],
 "digest words")

prop("X01", "Hash-to-point is the same function in C, Python and Solidity",
 "For every salt, message and hash variant, each implementation (C variable-time and constant-time, Python, Solidity) maps them to the same polynomial: successive big-endian 16-bit words of the extendable output, those below 61445 reduced modulo q, in order, words above skipped, all n coefficients filled. "
 "Every coefficient is below q and the result depends on all salt and message bytes.",
 ["inputs", "configurations"], "all salts, messages, degrees and hash variants",
 "Hash vectors exist for a couple of messages; a mistake at the rejection threshold (probability 2^-16 per word) or at an output block boundary needs specific streams.",
 [C+"common.c", Y+"falcon.py", S+"ZKNOX_HashToPoint.sol"],
 [("C", C+"common.c hash_to_point_vartime/_ct, keccak_hash_to_point_vartime"), ("Python", Y+"falcon.py hash_to_point"), ("Solidity", S+"ZKNOX_HashToPoint.sol hashToPointNIST/hashToPointEVM")],
 "the 512 (or n) coefficients")

prop("X02", "Python and C interoperate: keys and signatures of one are valid in the other",
 "For every key and message, a Falcon-512 signature (SHAKE-256 or Keccak variant) produced by Python, re-framed, is accepted by C and conversely; a secret key of either decodes in the other to the same polynomials and public key; and given the same salt and signing seed both signers produce the same s2 (unless one of the two first sampling centres is exactly an integer, where floating-point noise decides its floor).",
 ["inputs"], "all keys, messages, randomness streams, both hash variants",
 "The two languages' tests never meet except on committed vectors.",
 [Y+"falcon.py", Y+"falcon_codec.py", Y+"encoding.py", C+"nist.c"],
 [("Python signer", Y+"falcon.py"), ("C signer", C+"nist.c"), ("secret key decoding in Python", Y+"falcon_codec.py")],
 "acceptance and byte equality across languages")

prop("G01", "Go binding: any message signs and verifies, altered ones fail, bad input errors",
 "For every message of any length, a signature produced through the Go package verifies for that message and public key and is rejected for any other message, key or altered signature; inputs of wrong length give an error or a false result, never a crash or memory corruption. "
 "Two key pairs generated in different processes are different.",
 ["inputs", "histories"], "all messages, signatures, keys and lengths, all call sequences",
 "The Go test signs one short message and always exits with success.",
 ["falcon/falcon.go"],
 [("key generation, signing, verification", "falcon/falcon.go")],
 "return values, panics and process crashes")

prop("G02", "The geth precompile accepts exactly valid signatures and never crashes the node",
 "For every call data, the Falcon precompile returns either an error/zero or one without panicking or reading past the input, returns one exactly when the ABI-encoded signature, message and public key verify, and its gas price is defined for every input length: a call given less gas than the price fails, a call given the price answers. "
 "It is at address 0x13 under the rules of Prague and later and at none before.",
 ["inputs"], "all call data byte strings, gas limits and forks",
 "The fork's file has no test; malformed ABI offsets are the attacker's choice and crash a node.",
 ["geth/contracts.go"],
 [("precompile", "geth/contracts.go falconvrfy")],
 "result bytes, error or panic")

prop("G03", "The other precompiled contracts of the geth fork keep Ethereum's rules",
 "For every fork, call data and gas limit, each address holds a contract exactly from the fork on that introduced it, and contracts 0x01 to 0x11 return the result (or error) and have the price that the Yellow Paper and "
 "EIPs 152, 196, 197, 198, 1108, 2537, 2565 and 4844 define, the arithmetic of the pairing-friendly curves (imported) taken as given; a call with less gas than the price fails, no input panics and none is changed.",
 ["inputs"], "all contracts, forks, call data byte strings and gas limits",
 "The fork replaces the node's file of precompiled contracts and has no test; one differing result splits the chain.",
 ["geth/contracts.go"],
 [("precompiled contracts", "geth/contracts.go")],
 "result bytes, error, price or panic")

prop("J01", "The JavaScript build interoperates with the C library",
 "For every message, seed and key, signatures made with the shipped JavaScript/WebAssembly module open in the C library and signatures made in C open in the module, altered ones open in neither, keys generated by the module "
 "are valid for C and a seed gives the same key pair in both (or is refused by both); no call writes outside its buffers or depends on earlier ones, whether the functions are called directly or through ccall and cwrap, and memory that is released is used again. Key pairs and nonces differ between calls and between processes. "
 "The same holds for the module that the C sources give when compiled for WebAssembly.",
 ["inputs", "histories"], "all messages, keys, seeds, alterations and call sequences",
 "The demo script signs a fixed message within one implementation.",
 ["falcon/falcon.js", C+"nist16.c", C+"katrng.c"],
 [("module entry points", "falcon/falcon.js")],
 "return codes and opened messages on both sides")

prop("S01", "On-chain FALCON/ETHFALCON verification equals the reference verification",
 "For every message, 40-byte salt, packed s2 and packed public key with coefficients below q, the FALCON and ETHFALCON contracts return true exactly when all coefficients of s2 are canonical and the reference verification equation accepts, with all 512 coefficients of both s1 and s2 counted in the norm and the same bound as off chain; wrong array or salt lengths are refused. "
 "A vector that was not produced with the secret key (for example s2 = c/h, giving s1 = 0) is rejected.",
 ["inputs"], "all salts, messages, s2 vectors (honest, altered, adversarial, at the bound) and keys",
 "Contract tests check that a few honest signatures are accepted; they do not contain one forged vector, so a verifier that ignores s2's norm passes.",
 [S+"ZKNOX_falcon.sol", S+"ZKNOX_ethfalcon.sol", S+"ZKNOX_falcon_core.sol", S+"ZKNOX_falcon_utils.sol", S+"ZKNOX_NTT_falcon.sol", S+"ZKNOX_HashToPoint.sol"],
 [("core equation and norm", S+"ZKNOX_falcon_core.sol"), ("entry points", S+"ZKNOX_falcon.sol, ZKNOX_ethfalcon.sol")],
 "return value or revert of the contract entry points executed on a model of EVM memory")

prop("S02", "On-chain EPERVIER recovery yields the signer's address, only for short vectors",
 "For every message, salt, packed s1, s2 and hint, the EPERVIER contracts return the Keccak address of the key h with s1 + s2*h = H(salt, message) when all coefficients of s1 and s2 are below q, (s1, s2) with all 512 coefficients is within the norm bound and the hint is the inverse of the product of the NTT coefficients of s2, and revert otherwise.",
 ["inputs"], "all salts, messages, vectors and hints, honest and adversarial",
 "Contract tests recover from a few honest signatures only.",
 [S+"ZKNOX_epervier.sol", S+"ZKNOX_ethepervier.sol", S+"ZKNOX_NTT_falcon.sol"],
 [("recovery", S+"ZKNOX_epervier.sol recover, ZKNOX_ethepervier.sol recover")],
 "returned address or revert")

prop("S03", "On-chain NTT libraries multiply polynomials correctly",
 "For all polynomials with coefficients modulo q, forward and inverse transforms of every on-chain variant (packed tables, stored tables, external table contracts, recursive) are mutually inverse, and each multiplication entry point returns the product modulo x^512+1 and q with reduced coefficients; the transform of a public key equals the one the off-chain tools produce. "
 "The parameterised contract does the same for every prime modulus and power-of-two degree whose tables it is given, after every sequence of updates, with the parameters in force.",
 ["inputs"], "all polynomials modulo q, including extreme coefficients",
 "One pair of polynomials is tested; a wrong twiddle constant or missing reduction is only visible for other inputs.",
 [S+"ZKNOX_NTT_falcon.sol", S+"ZKNOX_NTT.sol", S+"ZKNOX_falcon_deploy.sol", "external/NTT_Recursive.sol"],
 [("vectorised NTT", S+"ZKNOX_NTT_falcon.sol"), ("stateful and stateless NTT contract", S+"ZKNOX_NTT.sol"), ("recursive NTT", "external/NTT_Recursive.sol")],
 "coefficients returned by the functions executed on a model of EVM memory")

prop("S04", "On-chain SHAKE-256 equals the standard for every input and output length",
 "For every input split into updates and every output length, the on-chain SHAKE-256 gives the standard digest, and its permutation is Keccak-f[1600] for every state.",
 ["inputs", "histories"], "all inputs, splits, output lengths and permutation states",
 "Vectors of a few lengths; rate-boundary lengths (135, 136, 137, 272) need dedicated inputs.",
 [S+"ZKNOX_shake.sol"],
 [("sponge", S+"ZKNOX_shake.sol shakeUpdate, shakePad, shakeSqueeze, shakeDigest"), ("permutation", S+"ZKNOX_shake.sol f1600")],
 "digest bytes")

prop("S05", "On-chain decoding of NIST keys and signatures is strict and agrees with C",
 "For every public key and signed message bundle, the on-chain decoder returns the same public key polynomial, salt, message and s2 as the C decoder when the latter accepts (up to the documented maximum length, 666 bytes of signature body), and reverts when a header, coefficient range, zero encoding, padding bit or length is not valid.",
 ["inputs"], "all byte strings as public key and bundle, all message lengths",
 "KAT bundles are all valid; strictness is never exercised.",
 [S+"ZKNOX_falcon_encodings.sol", S+"ZKNOX_falcon_utils.sol"],
 [("bundle decoding", S+"ZKNOX_falcon_encodings.sol"), ("key decoding", S+"ZKNOX_falcon_utils.sol _ZKNOX_NTT_Decompress")],
 "returned arrays or revert")

prop("S06", "Registered keys, packed signatures and frozen parameters behave as documented",
 "For every registered public key, digest and packed signature, the byte-string verification entry point returns its magic value exactly when the structured entry point accepts the unpacked salt and s2 for that key, and otherwise the failure value or a revert; range checking of a polynomial reports exactly whether all coefficients are below q; and the parameters of an NTT contract are those last set before it was made immutable.",
 ["inputs", "histories"], "all keys, digests, signature byte strings of all lengths, and sequences of update/freeze calls",
 "Contract tests use single honest calls; none tries to change a frozen contract or an odd-length signature.",
 [S+"ZKNOX_falcon.sol", S+"ZKNOX_ethfalcon.sol", S+"ZKNOX_NTT.sol", S+"ZKNOX_falcon_core.sol", S+"ZKNOX_common.sol"],
 [("key registration and byte-string verification", S+"ZKNOX_falcon.sol, ZKNOX_ethfalcon.sol"), ("freeze switch", S+"ZKNOX_NTT.sol update, make_immutable"), ("range check", S+"ZKNOX_falcon_core.sol falcon_checkPolynomialRange")],
 "return values, reverts and stored parameters", state="NTT contract storage, key storage")

prop("S07", "Recursive on-chain verifier accepts exactly what the reference equation accepts",
 "For every message, salt, signed coefficient vector s2 and public key, both entry points of the external recursive verifier (key in coefficient form, key in its NTT form) return address zero when s2, taken modulo q, satisfies the reference verification equation for the iterated-Keccak hash of message and salt with all 512 coefficients of s1 and s2 in the norm and the same inclusive bound as off chain, and revert otherwise; the two entry points agree, coefficients of magnitude above q and arrays of another length are refused.",
 ["inputs"], "all messages, salts, s2 vectors (any 256-bit signed integers), keys and array lengths",
 "No test of the repository runs this contract; vectors at the norm bound, negative or oversized coefficients need constructed inputs.",
 ["external/ETHFalcon_Recursive.sol", "external/NTT_Recursive.sol", S+"ZKNOX_HashToPoint.sol"],
 [("verification", "external/ETHFalcon_Recursive.sol verify, verify_nttpub"), ("multiplication", "external/NTT_Recursive.sol mulZQ, mulZQ_opt"), ("hash", S+"ZKNOX_HashToPoint.sol hashToPointTETRATION")],
 "returned address or revert")

prop("V01", "Test-vector generators write vectors that C and the contracts accept",
 "For every request file (seeds, non-empty messages) and NIST key pairs, the known-answer generator writes one record per request that keeps count, seed, message and keys, and a signed message in the documented layout that the C library (Keccak variant) opens to the message and that the on-chain decoder and ETHFALCON contract accept; the same request gives the same file. "
 "For every key, list of messages and random stream put into the scripts that write the Solidity tests, each generated test holds the given message, a fresh salt, the packed public key (or address) of that key and a signature for which the contract call it makes succeeds, and each generated hash vector is the hash of its salt and message.",
 ["inputs"], "all request files, keys, messages and random streams",
 "The unit tests only read files generated once from one key; nothing runs the generators.",
 [Y+"scripts/generate_kat_rsp.py", Y+"generate_falcon_test_vectors.py", Y+"generate_falcon_core_test_vectors.py", Y+"generate_epervier_test_vectors.py", Y+"generate_hashtopoint_test_vectors.py"],
 [("record layout", "src/ZKNOX_falcon_encodings.sol decompress_KAT"), ("response writer", Y+"scripts/generate_kat_rsp.py generate_rsp, sign_message"), ("Solidity test writers", Y+"generate_*_test_vectors.py")],
 "records and Solidity files written; return values of C and of the contracts on them")

prop("V02", "The C library's known-answer programs write true, reproducible vectors",
 "Every known-answer program of the C library (FALCON and ETHFALCON in NIST and EVM format, EPERVIER, hash-to-point with either hash, core), run on its own requests or on any request file of seeds and non-empty messages, succeeds and writes one record per request in order, with its count, seed, length and message; key pair and signed message are those the library gives when its random source is the AES-256 CTR_DRBG of the record's seed, the signed message opens to the message, each listed hash is the hash of that salt and message, and the same requests give the same file. "
 "Its own requests are the 100 of NIST's generator (entropy 0..47, messages of 33, 66, ... 3300 bytes), and no two programs write the same file.",
 ["inputs"], "all request files, seeds and messages",
 "The vectors are the reference other implementations test against; the unit tests read some files generated once and run no program.",
 [C.replace("src/", "KAT/")+x for x in ("PQCgenKAT_sign.c", "PQCgenKAT_sign_zknox.c", "PQCgenKAT_sign_epervier_zknox.c", "PQCgenKAT_hashtopoint.c", "PQCgenKAT_falconcore.c")] + [C+"katrng.c"],
 [("record layout", "README.md NIST KATS"), ("programs", "falcon/nistfalcon/Makefile")],
 "request and response files the programs write")

prop("H01", "Poseidon2 wrappers hand 24 words to the permutation and back unchanged",
 "For every 24 words of 32 bits, both native wrappers (poseidon2_permute_babybear24 over zkhash and over Plonky3) write exactly the 24 canonical words of their Poseidon2 instance (zkhash's BabyBear-24 parameters; Plonky3's constants from seed 1) on the input reduced modulo 2013265921, in order, also in place, leave the input unchanged and write nothing else; calls are independent. "
 "The Python function over either library gives the same 24 integers for lists and tuples and refuses any other number of words.",
 ["inputs"], "all 24-word inputs and all other lengths",
 "The only test is a C program with one input that no build runs.",
 ["hash/src/poseidon2_EF/src/lib.rs", "hash/src/poseidon2_Plonky3/src/lib.rs", "hash/src/python/poseidon2.py"],
 [("C interface", "hash/src/poseidon2_EF/header/poseidon2_wrapper.h"), ("Python interface", "hash/src/python/poseidon2.py poseidon2_permute")],
 "words written, exceptions")

prop("S08", "Data stored as contract code reads back exactly, whole or by range",
 "For every byte string up to the code size limit, storing it as contract code (the SSTORE2 library that holds registered public keys) gives a fresh non-zero pointer from which reading returns exactly that string; reading a range returns that slice clipped to its end, an empty string beyond the end or for an address without code, and a range that ends before it starts is refused; longer strings are refused; no write disturbs another and values read together do not overlap in memory.",
 ["inputs", "histories"], "all byte strings, ranges and sequences of writes and reads",
 "The library is vendored without its tests being run here; registered keys all have one length.",
 ["lib/sstore2/contracts/SSTORE2.sol", "lib/sstore2/contracts/utils/Bytecode.sol", S+"ZKNOX_falcon.sol", S+"ZKNOX_ethfalcon.sol"],
 [("write and read", "lib/sstore2/contracts/SSTORE2.sol"), ("creation code and code slices", "lib/sstore2/contracts/utils/Bytecode.sol"), ("use for keys", S+"ZKNOX_falcon.sol setKey, verify")],
 "bytes returned, pointers, reverts", state="code of the created contracts")

for p in P:
    if len(p["title"]) > 80: print("LONG", p["id"], len(p["title"]), p["title"])
assert all(len(p["title"]) <= 80 for p in P)
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
