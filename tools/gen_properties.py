#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property texts live here so that they stay diffable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                     observe_at=observe, hook_needed=None)))

p("D01", "MD5/SHA-1/SHA-2/SM3: any chunking and interleaving gives the standard digest",
  "For every message and every way of cutting it into write calls (including empty writes), interleaved in any order with other live digest objects, MD5, SHA-1, SHA-224, SHA-256, SHA-384, SHA-512, SHA-512/t and SM3 return exactly the digest their standard defines for the concatenated bytes. The digest has the advertised length, and the previous contents of the output buffer do not matter.",
  ["schedules", "histories", "inputs", "configurations"],
  "All messages (lengths biased to block and length-field boundaries, up to > 2^29 bytes for the long runs), all partitions into writes, all interleavings of up to 5 live digest objects, the typed structs and the facade enum, all SHA-512/t output sizes.",
  "The unit tests feed a handful of fixed vectors with one write each; they never split a message at a chosen offset, never interleave two objects and never reach the 32-bit bit-length boundary.",
  ["src/md5/md5.rs", "src/sha/sha1.rs", "src/sha/sha256.rs", "src/sha/sha512.rs", "src/sha/sha.rs", "src/sm3/sm3.rs"],
  [("partial block buffering in write", "src/sha/sha256.rs write"), ("padding and length field in checksum", "src/sha/sha512.rs checksum")],
  ["Digest::checksum output", "Digest::bits_len"],
  [("buffered tail", "bytes not yet compressed", "idx/buf fields"), ("message length", "total bytes written", "len field")])

p("D02", "SHA-3 and SHAKE: byte and bit writes in any chunking match FIPS 202",
  "For every sequence of byte writes and single-bit writes, interleaved with other live objects, SHA3-224/256/384/512, SHAKE128/256 and RawSHAKE128/256 return the value FIPS 202 defines for the concatenated bit string at the configured output length. Changing the SHAKE output length starts a new message, and outputs of different lengths for one message are prefixes of each other.",
  ["schedules", "histories", "inputs", "configurations"],
  "All bit strings built from byte and bit writes, output lengths 0..3000 bits including non-multiples of 8, histories mixing length changes, conversions to raw form, checksums and resets, interleaved over several objects.",
  "Tests use fixed vectors with one-shot writes; bit-level histories, output length changes in mid life and odd output lengths are not reached.",
  ["src/sha3/sha3.rs", "src/sha3/shake.rs", "src/keccak/keccak.rs"],
  [("domain suffix appended at checksum", "src/sha3/sha3.rs checksum"), ("set_digest_len resets", "src/sha3/shake.rs")],
  ["Digest::checksum output", "Digest::bits_len"])

p("D03", "Digest life cycle: checksum is stable and every new message starts clean",
  "For every digest and MAC object, asking for the checksum again without writing new data returns the same value, the first data written after a checksum starts a new message, and reset at any point returns the object to its initial state, so nothing from an earlier message influences a later one. A clone taken at any point and its original evolve independently.",
  ["histories", "schedules", "crash_points"],
  "All histories of write / checksum / repeated checksum / reset / clone / drop over MD5, SHA-1, SHA-2, SM3, SHA-3, SHAKE, HMAC, CMAC and the ZUC MAC, with the message abandoned (reset) at every possible offset.",
  "Tests create a fresh object or call reset between vectors; histories in which an object is reused after a checksum, reset in mid message or cloned in mid message are not exercised.",
  ["src/md5/md5.rs", "src/sha/sha1.rs", "src/sha/sha256.rs", "src/sha/sha512.rs", "src/sm3/sm3.rs", "src/sha3/sha3.rs", "src/sha3/shake.rs", "src/hmac/hmac.rs", "src/cmac/cmac.rs", "src/zuc/zuc_mac.rs"],
  [("checked flag", "is_checked / is_check in every digest"), ("reset", "reset in every digest")],
  ["Digest::checksum output"],
  [("checked flag", "the digest has been finalised and no data arrived since", "is_checked")])

p("D04", "A Keccak sponge object gives the same answer whatever it was used for before",
  "For every permutation width, every round count (fewer or more than the standard one), every rate strictly between 0 and the width, every input bit length and every requested output length, a sponge call returns the FIPS 202 sponge function of that input regardless of earlier calls on the same object, on clones, or on the permutation it was made from. A rate outside that range is refused when the sponge is created. A permutation call returns Keccak-p of its input in the same bit order and refuses input shorter than the width.",
  ["histories", "configurations", "inputs"],
  "Widths 25..1600, rounds 0..400, rates 1..width-1 plus invalid ones, input lengths 0..30 blocks in bits, output lengths 0..4 blocks, exactly and one or two bits around multiples of the rate, call histories over several objects made from shared permutations, permutations called in between.",
  "The only sponge test checks an output length; it never compares values across a call history and never tries an invalid rate.",
  ["src/keccak/keccak.rs"],
  [("state reset at start of sponge", "src/keccak/keccak.rs sponge_buf"), ("double-buffer flag", "KeccakBufGuard")],
  ["KeccakSponge::sponge output", "KeccakSponge::new result"],
  [("double buffer flag", "which of two state arrays is current", "state_flag")])

p("M01", "HMAC equals FIPS 198-1 for every key, key change and write history",
  "For every supported hash, handed over fresh or already used, every key length (empty, short, exactly one block, longer than a block) and every chunking of the message, the HMAC object returns the FIPS 198-1 value for the current key and current message. Replacing the key at any moment discards the unfinished message and everything derived from the old key.",
  ["histories", "inputs", "configurations", "crash_points"],
  "All histories of write / checksum / set key / reset / clone, key lengths 0..30 blocks, hashes MD5, SHA-1, SHA-2, SM3 and SHA-3, interleaved sessions with different keys.",
  "Tests check fixed vectors with one key per object; replacing keys in mid message and reusing an object after checksum under a different key are not reached.",
  ["src/hmac/hmac.rs"], [("key block preparation", "generate_k0_io"), ("truncation back to the key block", "write/reset")],
  ["Digest::checksum output of HMAC"])

p("M02", "CMAC equals SP 800-38B for every cipher, chunking and reuse history",
  "For AES, TDES, DES and SM4 and for every message length and chunking, the CMAC object returns the SP 800-38B value of the current message, in particular when the message ends exactly on a block boundary or is empty. Reusing the object after a checksum or a reset gives the same value a new object would give.",
  ["histories", "inputs", "configurations"],
  "Message lengths 0..10 blocks with boundary bias, all partitions into writes, histories with checksum / reset / reuse over interleaved objects.",
  "Tests check the published vectors with one write each, so the hold-back of the final block across writes is not exercised.",
  ["src/cmac/cmac.rs", "src/cmac/const_tables.rs"], [("last-block hold back", "src/cmac/cmac.rs write"), ("subkeys", "subkey_gen")],
  ["Digest::checksum output of CMAC"])

p("M03", "ZUC MAC (128-EIA3) does not depend on chunking or earlier use",
  "For every key, count, bearer, direction and byte message, and every partition of the message into writes, the ZUC MAC equals 128-EIA3 of the concatenated bytes. Repeating the checksum, resetting and starting a new message on the same object behave as on a new object.",
  ["histories", "inputs", "configurations"],
  "Messages of 0..200 bytes with every alignment to the 32-bit keystream word, all partitions into writes, histories of checksum / reset / reuse on interleaved objects.",
  "The tests compute each vector with a single write on a fresh object.",
  ["src/zuc/zuc_mac.rs", "src/zuc/zuc_core.rs"], [("keystream window", "src/zuc/zuc_mac.rs write"), ("final keystream word", "checksum")],
  ["Digest::checksum output of ZUCMac"],
  [("keystream window", "current pair of keystream words", "key fields"), ("bit length", "bits absorbed so far", "length field")])

p("Z01", "ZUC keystream and 128-EEA3 sessions: calls of any size continue one keystream",
  "A ZUC object yields exactly the GM/T 0001 keystream of its key and IV across any mix of access methods, cloning and re-keying. A 128-EEA3 cipher object encrypts or decrypts the concatenation of all calls since creation or reset with one continuous keystream, whatever the call sizes, reports the number of bytes it produced, and a reset object decrypts what it encrypted.",
  ["histories", "schedules", "inputs"],
  "Call sizes 0..100 bytes with every alignment to the 32-bit word, histories of encrypt / decrypt / reset / clone / re-key on interleaved objects.",
  "Tests encrypt each vector in one call; splitting at non-word offsets, clones in mid word and re-keying are not covered.",
  ["src/zuc/zuc_core.rs", "src/zuc/zuc_cipher.rs"], [("left-over keystream bytes", "src/zuc/zuc_cipher.rs encrypt"), ("key loading", "src/zuc/zuc_core.rs set_slice")],
  ["Cipher::encrypt/decrypt output and return value", "ZUC::zuc / Iterator::next"])

p("C01", "ECB and CBC streams equal the one-shot result and round-trip for any schedule",
  "For every cipher, padding, message, chunking, and choice of when output is drawn off, the bytes drawn from an ECB or CBC encryption stream up to and including its finish are exactly the one-shot ciphertext, which is the SP 800-38A ciphertext of the padded message; feeding them in any chunking to a decryption stream returns exactly the message. After finish or reset the stream starts the next message afresh with the same IV, and at most two blocks are ever held back.",
  ["schedules", "histories", "inputs", "configurations"],
  "AES-128/192/256, DES, TDES, SM4; one-zero padding and no padding; message lengths 0..10 blocks; write sizes, draw-off points, finish/reset points and interleavings of up to 4 streams chosen by the scheduler; one-shot calls mixed in on the same stream object.",
  "Tests run block-aligned vectors through one write; partial tails under padding, draw-off schedules, reuse after finish and mixed one-shot calls are not reached.",
  ["src/cipher_mode/ecb.rs", "src/cipher_mode/cbc.rs", "src/cipher_mode/padding.rs", "src/cipher_mode/pond.rs", "src/cipher_mode/cipher_mode_macros.rs"],
  [("tail buffering and last-block hold back", "write in ecb.rs/cbc.rs"), ("chaining value", "ij in cbc.rs"), ("pad/unpad", "padding.rs")],
  ["Pond::draw_off output", "EncryptStream/DecryptStream results", "Cipher::encrypt/decrypt output"],
  [("tail buffer", "bytes not yet forming a block", "data field"), ("chaining block", "previous ciphertext or IV", "ij field")])

p("C02", "CFB streams with any segment size equal one-shot CFB and round-trip",
  "For every supported segment size, cipher, padding, message, chunking and draw-off choice, the CFB encryption stream yields exactly the one-shot ciphertext, which is SP 800-38A CFB of the padded message, and the decryption stream returns exactly the message. Input that does not fill a segment when no padding is configured is refused at the end of the message, never silently dropped and never a crash.",
  ["schedules", "histories", "inputs", "configurations"],
  "Segment sizes 1..block bytes, both paddings, lengths 0..6 blocks, all chunkings and draw-off schedules, stream reuse, interleaved streams.",
  "Tests use whole segments, no padding and a draw-off pattern that hides where unpadding happens.",
  ["src/cipher_mode/cfb.rs", "src/cipher_mode/padding.rs", "src/cipher_mode/pond.rs"],
  [("shift register update", "encrypt_inner/decrypt_inner in cfb.rs"), ("unpadding at finish", "CFBDecrypt finish")],
  ["Pond::draw_off output", "stream results", "Cipher::encrypt/decrypt output"])

p("C03", "OFB streams equal one-shot OFB for any chunking and never lose or repeat bytes",
  "For every cipher, message, chunking and draw-off choice, OFB encryption and decryption streams yield exactly the SP 800-38A OFB transform of the message, of the same length as the message. After finish or reset the next message starts again from the current IV, and one-shot calls on the same object do not disturb a stream in progress.",
  ["schedules", "histories", "inputs", "configurations"],
  "All four ciphers, lengths 0..8 blocks, all chunkings and draw-off schedules, reuse after finish/reset, mixed one-shot calls, interleaved streams and clones.",
  "Tests use block-aligned vectors in a fixed chunking on a fresh object.",
  ["src/cipher_mode/ofb.rs", "src/cipher_mode/pond.rs", "src/cipher_mode/cipher_mode_macros.rs"],
  [("feedback register", "ij in ofb.rs"), ("tail buffer", "data in ofb.rs")],
  ["Pond::draw_off output", "Cipher::encrypt/decrypt output"])

p("C04", "CTR consumes counter values in order and never uses one twice between resets",
  "For every cipher, counter width of at least a block, initial value, and history of one-shot calls, stream writes and finishes, the k-th counter block consumed since creation or reset is the initial value plus k (wrapping), each is used for at most one message block, and the output is the XOR of input and encrypted counter blocks. A counter that cannot supply a value or is too short is reported as an error and never replaced by a repeated block.",
  ["schedules", "histories", "inputs", "fault_sequences"],
  "Counter widths from one to two blocks including values about to wrap, all chunkings and draw-off schedules, several messages per object, clones of unused objects, used objects turned into streams, counters that run dry at a scheduled point, recorded counter blocks seen by the cipher.",
  "Tests use a block-wide counter and block-aligned data; wider counters, wrap-around, exhaustion and several messages on one object are not reached.",
  ["src/cipher_mode/ctr.rs", "src/cipher_mode/counter.rs"],
  [("counter increment with carry", "src/cipher_mode/counter.rs next"), ("counter block selection", "encrypt_inner in ctr.rs")],
  ["blocks passed to Cipher::encrypt", "Pond::draw_off output"],
  [("counter", "next counter value", "cur_val")])

p("C05", "A failing block cipher never corrupts output and a reset stream is clean",
  "When the underlying cipher reports an error at any point of any mode's operation, the call in progress reports an error, every byte drawn off before and after the failure is a correct prefix of the fault-free output, and nothing crashes. After reset the stream processes the next message exactly as a new stream would, and later one-shot calls are unaffected by earlier failed ones.",
  ["fault_sequences", "schedules", "histories", "crash_points"],
  "Cipher failures injected at every call index, single and repeated, in ECB, CBC, CFB, OFB and CTR, encryption and decryption, one-shot and stream, combined with any chunking, draw-off and reset schedule.",
  "No test injects a failing cipher, so no error path of any mode is executed today.",
  ["src/cipher_mode/ecb.rs", "src/cipher_mode/cbc.rs", "src/cipher_mode/cfb.rs", "src/cipher_mode/ofb.rs", "src/cipher_mode/ctr.rs", "src/cipher_mode/cipher_mode_macros.rs"],
  [("error propagation", "match on cipher.encrypt/decrypt"), ("reset", "impl_fn_reset macros")],
  ["stream results", "Pond::draw_off output"])

p("C06", "The IV in force changes only by a successful update and is what gets used",
  "In CBC, CFB and OFB the current IV always has the block length and changes only when an IV update or an explicit IV assignment succeeds; a failing random source or a wrong-length IV leaves the previous IV in force and everything encrypted later still decrypts under it. Successful updates take the IV from the random source in order, without reuse of earlier output, and the IV reported is the one used by encryption and by streams created afterwards.",
  ["fault_sequences", "histories", "configurations"],
  "Random-source failures at every word position (first, middle, last word of an IV; transient and permanent), misbehaving IV providers returning wrong lengths, interleaved with encrypt / decrypt / set / update / clone on 8- and 16-byte block ciphers.",
  "Tests use a fixed IV provider that never fails and never call update twice.",
  ["src/cipher_mode/cbc.rs", "src/cipher_mode/cfb.rs", "src/cipher_mode/ofb.rs", "src/cipher_mode/initial_vec.rs"],
  [("IV generation", "src/cipher_mode/initial_vec.rs initial_vec"), ("length check", "update_iv / set_iv")],
  ["cur_iv", "update_iv result", "ciphertext under the reported IV"])

p("C07", "Damaged ciphertext is rejected or decrypts exactly as the mode defines",
  "For every damaged ciphertext (bits flipped, truncated, extended, blocks dropped, repeated or reordered) one-shot and stream decryption in ECB, CBC, CFB, OFB and CTR either report an error or return exactly what SP 800-38A decryption plus strict removal of the one-zero padding defines, and never crash. Padding is removed only if it is a 1 bit followed only by 0 bits; partial blocks are errors where the mode needs whole blocks.",
  ["fault_sequences", "inputs", "schedules"],
  "Channel faults flip / truncate / extend / drop / duplicate / swap applied between an encrypting and a decrypting session, all modes, both paddings, all chunkings on the receiving side.",
  "Tests only decrypt ciphertexts they have just produced.",
  ["src/cipher_mode/padding.rs", "src/cipher_mode/ecb.rs", "src/cipher_mode/cbc.rs", "src/cipher_mode/cfb.rs", "src/cipher_mode/ofb.rs", "src/cipher_mode/ctr.rs"],
  [("unpadding", "src/cipher_mode/padding.rs"), ("length checks", "finish and decrypt in each mode")],
  ["decrypt result", "finish result"])

p("B01", "AES/DES/TDES/SM4 objects stay correct and reusable in any interleaved history",
  "For every key and every interleaved history of encryptions and decryptions over any number of live cipher objects and clones, each call returns exactly the standard block transform under that object's key and decryption inverts encryption. A call with input of the wrong length reports an error and changes neither the object's later behaviour nor the caller's output buffer, and the output buffer's earlier contents never leak into the result. A key of a length the cipher does not have is refused.",
  ["histories", "schedules", "inputs", "fault_sequences"],
  "All key sizes including weak and degenerate keys, inputs of length 0..40, reused output buffers, clones and interleavings of up to 5 objects with different keys.",
  "Tests check isolated vectors per cipher; histories mixing keys, failing calls and reused buffers are not reached.",
  ["src/aes/aes.rs", "src/aes/aes_amd64.rs", "src/aes/aes_generic.rs", "src/des/des.rs", "src/des/tdes.rs", "src/sm4/sm4.rs"],
  [("key schedule", "aes_amd64.rs / des.rs / sm4.rs"), ("length check", "encrypt/decrypt")],
  ["Cipher::encrypt/decrypt output"])

p("K01", "The caller's integers stay the caller's: keys and results do not share them",
  "An integer that was passed to a key, domain parameter or signature constructor, or returned by a key or curve operation, can afterwards be changed in place or dropped by the caller without changing any key, parameter set, curve, signature, copy of a key or other integer. No constructor or operation changes the integers it is given, and after any such changes keys and curves still compute with their own unchanged numbers.",
  ["histories", "schedules", "configurations"],
  "Up to eight integers and three natural numbers passed to and returned by RSA, DSA and curve keys, domain parameters, signature containers and curve operations on all backends, in any order, interleaved with in-place additions, subtractions, products, shifts, reductions and drops, with copies of keys and public parts of private keys taken at any moment.",
  "The integers of the arithmetic library share their storage when copied, so a missing deep copy shows only when the caller changes an integer after the call and looks at the key again; tests never change an integer they passed in.",
  ["src/rsa/rsa.rs", "src/dsa/dsa.rs", "src/dsa/signature.rs", "src/elliptic/key_pair.rs", "src/elliptic/elliptic.rs", "src/elliptic/p224.rs", "src/elliptic/p256.rs"],
  [("deep copies at the API boundary", "key constructors and clones"), ("results of shortcuts", "curve operations with infinite operands, decryption of 0 and 1")],
  ["key and parameter display", "results of key and curve operations", "values of the caller's integers"])

p("R01", "RSAES-PKCS1-v1_5 over a faulty channel and faulty randomness",
  "A message within the size limit encrypts to a ciphertext of modulus length whose RSA decryption is a well-formed PKCS#1 v1.5 type 2 block with at least eight nonzero padding bytes, and decrypts to the same message with or without blinding, whatever values the random source delivers. A damaged, truncated, extended or foreign ciphertext is rejected or yields exactly what PKCS#1 decoding defines; if the random source fails the call reports an error or the result still satisfies the format, and with a healthy source no two encryptions share their padding and no padding bit is constant.",
  ["fault_sequences", "inputs", "histories", "configurations"],
  "Messages 0..limit+3, keys of 512..2048 bits, random source faults (zeros, stuck, short reads, errors), channel faults on ciphertexts, mixed sequences on one object.",
  "Tests encrypt a few strings with a healthy generator and a perfect channel.",
  ["src/rsa/pkcs1.rs", "src/rsa/rsa.rs"], [("padding generation", "PKCS1 encrypt"), ("padding check", "PKCS1 decrypt")],
  ["Cipher::encrypt/decrypt of PKCS1"])

p("R02", "RSAES-OAEP over a faulty channel, with labels and faulty randomness",
  "A message within the size limit encrypts to a ciphertext of modulus length that is a valid OAEP encoding under the current label, and decrypts to the same message with or without blinding. Any ciphertext that is not a valid OAEP encoding for the current label and key (damaged, wrong length, wrong label, foreign key, missing separator) is rejected; label changes take effect for the next call; a random source that fails or delivers constant values causes an error or a valid encoding, never a malformed ciphertext, and with a healthy source no two encryptions share a seed and no seed bit is constant.",
  ["fault_sequences", "inputs", "histories", "configurations"],
  "Messages 0..limit+3, labels 0..100 bytes changed between calls, hashes MD5..SHA-256 and SM3, random source and channel faults, crafted encodings.",
  "Tests use a fixed set of vectors, one label and no damage.",
  ["src/rsa/oaep.rs", "src/rsa/rsa.rs"], [("MGF1 masking", "mgf1_xor"), ("separator and label check", "decrypt_inner")],
  ["Cipher::encrypt/decrypt of OAEP"])

p("R03", "RSASSA-PKCS1-v1_5 signatures verify exactly when nothing was changed",
  "Every signature produced verifies under its key and message, is the unique PKCS#1 v1.5 value for that message and has modulus length, with or without blinding and whatever the random source does. Any other byte string, message or key is rejected without a crash, including signatures that are truncated, zero-extended or not reduced modulo n, and a failed call does not affect later calls. Signing or verifying with a hash that has no PKCS#1 identifier reports an error.",
  ["fault_sequences", "inputs", "histories", "configurations"],
  "Keys 512..2048 bits, MD5, SHA-1, SHA-2 hashes, channel faults on signatures and messages, non-canonical encodings, mixed sign/verify histories on shared objects, hash objects handed over fresh or used.",
  "Tests verify two fixed signatures and no altered one.",
  ["src/rsa/pkcs1.rs", "src/rsa/rsa.rs", "src/rsa/signature.rs"], [("encoding comparison", "PKCS1 verify"), ("CRT check", "decrypt_and_check")],
  ["Signature::sign/verify of PKCS1"])

p("R04", "RSASSA-PSS signatures verify exactly when nothing was changed",
  "Every signature produced has modulus length, is a valid PSS encoding with the configured salt length and verifies under its key and message, for every modulus bit length and salt setting that fits, with or without blinding; a salt that does not fit is refused. Any altered, truncated or extended signature, other message or other key is rejected without a crash; a failing random source causes an error, never a signature that does not verify, and with a healthy source no two signatures share a salt and no salt bit is constant.",
  ["fault_sequences", "inputs", "histories", "configurations"],
  "Modulus sizes 344..2048 bits including sizes with every remainder modulo 8, salt settings default/auto/explicit/just fitting/just too long, hash objects handed over fresh or used, random-source and channel faults.",
  "Tests check two encodings of fixed size; they do not alter signatures and do not vary the modulus size.",
  ["src/rsa/pss.rs", "src/rsa/rsa.rs"], [("EMSA-PSS encode/verify", "src/rsa/pss.rs")],
  ["Signature::sign/verify of PSS"])

p("R05", "RSA key generation ends with a valid key of the requested size or an error",
  "For every healthy random source and every request for two to five primes of at least 8 bits or six to ten primes of at least 10 bits each, key generation terminates with a key whose modulus has exactly the requested bit length, whose exponents are inverse to each other modulo the order, whose prime factors are distinct, and which passes its own validity check. When the random source repeats, sticks or fails for a while and then recovers, generation still ends within bounded further randomness in a valid key or an error, and so does every request for fewer bits.",
  ["fault_sequences", "configurations", "inputs"],
  "Sizes 1..550 bits, 0..10 primes, primes congruent to 1 modulo the public exponent, seeds, and random-source fault schedules (stuck, zero, ones, repeated stretches, transient errors) followed by recovery.",
  "The tests generate keys with a healthy OS-seeded generator only, so every run differs and faults are never exercised.",
  ["src/rsa/rsa.rs"], [("pairwise distinct primes", "generate_multi_prime_key"), ("size check and retry", "generate_multi_prime_key")],
  ["PrivateKey::generate_key / generate_multi_prime_key", "PrivateKey::is_valid", "key display"])

p("R06", "RSA private operations give the same answer with any blinding randomness",
  "For every key, every ciphertext integer below the modulus and every behaviour of the blinding random source that eventually delivers values, the blinded, unblinded and checked private-key operations return the same integer, namely the e-th root, and never modify the key or the input. Inputs not below the modulus are refused, and the public operation returns the e-th power modulo n. A public key built from the same numbers in any of the offered forms is the same key, and an exponent below 3 or not below the modulus is refused.",
  ["fault_sequences", "inputs", "histories"],
  "Keys with 2..5 primes, ciphertext integers biased to 0, 1, n-1, n, n+1 and multiples of the primes, random sources that stick at 0 or 1 or n-ish values, fail transiently, or repeat; interleaved with clones of the key. Public keys arriving from outside in all four forms, with exponents from 0 past the modulus, leading zero bytes and negative numbers.",
  "Tests decrypt a few values with a healthy generator; values sharing a factor with n and degenerate blinding values are not reached.",
  ["src/rsa/rsa.rs"], [("blinding", "PrivateKey::decrypt"), ("CRT recombination", "PrivateKey::decrypt")],
  ["PrivateKey::decrypt / decrypt_and_check results"])

p("S01", "DSA signatures verify exactly when nothing was changed",
  "For every domain parameter size, key, message, hash (shorter or longer than the subgroup order) and random source behaviour that eventually delivers values, a produced signature has both components in [1, q-1], satisfies the FIPS 186 verification equation and is accepted by verify. Any altered signature, message or key, and any component outside [1, q-1], is rejected with an error and never a crash.",
  ["fault_sequences", "inputs", "histories", "configurations"],
  "Several (L, N) parameter sets including small ones, hashes of 128..512 bits, channel faults on signatures (flip, truncate, extend, swap components, add q, zero), random-source faults with recovery, hash objects handed over fresh or used.",
  "The tests use one hash per parameter set, accept-only checks and a healthy generator.",
  ["src/dsa/dsa.rs", "src/dsa/signature.rs"], [("hash truncation", "sign/verify in dsa.rs"), ("range checks", "verify in dsa.rs")],
  ["Signature::sign/verify of DSA"])

p("S02", "ECDSA signatures verify exactly when nothing was changed, on every curve",
  "For P-224, P-256, P-384 and P-521, every key, message, hash and random source behaviour, a produced signature has both components in [1, n-1], satisfies the FIPS 186-4 equation and is accepted by verify. Any altered signature, message or key, and any component outside [1, n-1], is rejected with an error and never a crash.",
  ["fault_sequences", "inputs", "histories", "configurations"],
  "All curves and both curve backends, hashes of 128..1024 bits (shorter and longer than the order), channel faults on signatures, random-source faults, hash objects handed over fresh or used.",
  "The tests check fixed vectors on accept/reject pairs with a healthy generator; for P-256 they fail outright on the pinned commit.",
  ["src/ecdsa/ecdsa.rs", "src/ecdsa/csp_rng.rs", "src/elliptic/elliptic.rs", "src/elliptic/p224.rs", "src/elliptic/p256.rs"],
  [("hash truncation", "src/ecdsa/ecdsa.rs"), ("range checks", "verify in ecdsa.rs")],
  ["Signature::sign/verify of ECDSA"])

p("S03", "Signing never reuses or leaks a nonce, even when the random source degrades",
  "Whatever a degraded random source delivers (stuck, all zero, repeating, rewound), two ECDSA signatures by different keys or on messages with different hashes never share their first component, so no two of them use the same nonce. With a random source that does not repeat, no two DSA or ECDSA signatures of a history share it, and the nonces lie in [1, order-1] and spread over that whole range.",
  ["fault_sequences", "histories"],
  "Histories of 2..60 signatures per key with random sources that stick, return zeros, repeat the same stretch for each signature or are rewound to an earlier state; keys, hash values and random words that differ in one chosen bit; healthy sources for the DSA part.",
  "Tests never look at two signatures of one key together and never degrade the generator.",
  ["src/ecdsa/csp_rng.rs", "src/ecdsa/ecdsa.rs", "src/dsa/dsa.rs"],
  [("nonce derived from key, entropy and hash", "src/ecdsa/csp_rng.rs"), ("nonce range", "rand_field_element")],
  ["first components of signatures in a history"])

p("S04", "EC key generation ends in a valid full-strength key or an error",
  "Whatever the random source delivers, elliptic-curve key generation either reports an error or yields a private scalar in [1, n-1] together with the matching public point on the curve, and never crashes. A source that stops before delivering as many random bits as the group order has gives an error, never a key. Once the source delivers fresh values, generation succeeds within a bounded number of words and gives a different key each time, with no bit of the private scalar constant.",
  ["fault_sequences", "configurations"],
  "All curves and backends, random sources with errors at any word, zeros, ones, values straddling the group order, exhaustion and recovery.",
  "Tests generate keys only from a healthy OS-seeded generator.",
  ["src/elliptic/elliptic.rs", "src/elliptic/key_pair.rs", "src/ecdsa/ecdsa.rs"],
  [("rejection sampling", "generate_key in src/elliptic/elliptic.rs")],
  ["generate_key result", "key display"])

p("S05", "Parties exchanging curve points agree whichever backend each of them uses",
  "Parties on P-224, P-256, P-384 or P-521 that publish multiples of the base point, add points received in any order, double, and multiply received points by any scalar obtain exactly the point the curve group law defines, whether a party uses the dedicated or the generic backend, including equal, opposite and infinite operands, coordinates of any value, and scalars of 0, of the group order and beyond. A point damaged in transit, with coordinates below the field prime, is reported off the curve exactly when it is off the curve. Each curve reports the size of its own field.",
  ["schedules", "histories", "fault_sequences", "configurations"],
  "Two or three parties with any mix of backends, up to 30 exchanges in any order, points negated, duplicated, swapped, bit-flipped or replaced by infinity in transit, scalars biased to 0, 1, powers of two, around the order and longer than the order, points and results whose coordinates are at the edges of the field (0, p-1, between order and prime, all-zero or all-one limbs, a single limb), pairs of points whose coordinates differ by such a value, and points whose curve equation fails in a single bit.",
  "Tests multiply the base point by fixed scalars; sums of exchanged points that coincide, cancel or are infinite and mixed backends are not reached, and for P-256 the tests fail outright on the pinned commit.",
  ["src/elliptic/elliptic.rs", "src/elliptic/p224.rs", "src/elliptic/p256.rs"],
  [("field reduction", "p224.rs / p256.rs"), ("special cases of the addition", "add_jacobian")],
  ["EllipticCurve add / double / scalar / scalar_base_point / is_on_curve"])

p("S06", "DSA parameter and key generation ends in valid parameters or an error",
  "Whatever the random source delivers, DSA generation either reports an error or yields primes p and q of exactly the requested lengths with q dividing p-1, a generator of order q, and a private key in [1, q-1] with the matching public key that signs and verifies. It never crashes, and once the source delivers fresh values it ends within bounded randomness.",
  ["fault_sequences", "configurations"],
  "Random sources that fail at any word, deliver zeros, ones, repeated stretches, or chosen words exactly where the private key is drawn or where the prime search meets a prime one bit too short; the 1024-bit size quickly, all four sizes in the thorough tier.",
  "Tests generate parameters only from a healthy OS-seeded generator and do not audit them.",
  ["src/dsa/dsa.rs"], [("search for p and q", "generate_parameters_inner"), ("rejection sampling of the key", "generate_key_inner")],
  ["generation result", "key display"])

p("N01", "Secret-dependent running time",
  "The running time of private-key operations and padding checks does not depend on secret data.",
  ["inputs"], "All keys and messages.", "Tests do not measure time.",
  ["src/rsa/oaep.rs", "src/elliptic/p224.rs"], [("masked selection", "p224.rs")], ["wall-clock time"])

p("N02", "Hardware and portable AES implementations agree",
  "The AES block transform is the same function whichever implementation the build selects.",
  ["configurations", "inputs"], "All keys, blocks and build hosts.", "Only the implementation selected on the build host is tested.",
  ["src/aes/aes_amd64.rs", "src/aes/aes_generic.rs", "build.rs"], [("build-time selection", "build.rs")], ["Cipher::encrypt/decrypt of AES"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
