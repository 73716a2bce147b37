#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list is kept here so that it is easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})

NOT = "turtls has no tests at all; nothing in the repository executes this code. "
# ------------------------------------------------------------------ TLS client
p("T01", "A hostile server cannot crash the client",
  "Whatever bytes a server sends, in whatever chunk sizes the read callback returns them and wherever the stream breaks off, turtls_connect returns a status to its caller: it never aborts, panics, indexes out of bounds, overflows, or loops forever without asking for more input.",
  ["inputs", "fault_sequences"], "All server byte streams (records, handshake messages, extensions, certificates) and all ways the read callback may cut or end them.",
  NOT + "The property ranges over all byte strings a server may send; length fields, boundary values and truncations are exactly what a handful of samples misses.",
  ["src/record/read.rs", "src/handshake.rs", "src/server_hello.rs", "src/extensions.rs", "src/extensions/key_share.rs", "src/extensions/app_proto.rs", "src/certificates.rs", "src/certificates/der.rs", "src/certificates/x509.rs"],
  [("record and message length checks", "src/record/read.rs get_raw/deprotect, src/handshake.rs read_inner"), ("bounds checks in the parsers", "src/server_hello.rs, src/extensions.rs ExtIter, key_share::parse_ser")],
  ["return of turtls_connect", "process abort"])
p("T02", "ClientHello is well formed and says exactly what was configured",
  "For every configuration (cipher suites, groups, signature algorithms, server name, application protocols) the client either refuses to connect without sending anything, or sends a ClientHello whose nested length fields all agree with its contents and which offers exactly the supported options that were enabled: TLS 1.3, the enabled suites, the groups and their key share, the signature algorithms, and, when configured, the server name and protocol list. The random field is the system random bytes, and the key share is the public key of the private key that is later used.",
  ["configurations", "inputs"], "All values of the public configuration (all bit patterns of the flag words, names and protocol lists of any length) and all random bytes.",
  NOT + "Every flag combination and length matters because the message's nested lengths are computed separately from what is written.",
  ["src/client_hello.rs", "src/extensions.rs", "src/extensions/server_name.rs", "src/extensions/app_proto.rs", "src/extensions/key_share.rs", "src/extensions/sig_algs.rs", "src/extensions/versions.rs", "src/cipher_suites.rs", "src/handshake.rs"],
  [("length precomputation", "src/extensions.rs len_client"), ("extension writers", "src/extensions/*.rs write_*"), ("message assembly", "src/client_hello.rs client_hello_client")],
  ["bytes passed to write_fn"])
p("T03", "Only a ServerHello that answers the offer is accepted",
  "The client proceeds past ServerHello only if the message is a ServerHello that parses completely, echoes the empty session id, uses null compression, selects a cipher suite that was offered, selects TLS 1.3 in supported_versions, and carries exactly one well-formed key share for an offered group whose point is on the curve, with no duplicate or unsolicited extensions. Any other message makes it send one fatal alert, close the connection, report the same alert to the caller, and return failure.",
  ["inputs", "configurations"], "All ServerHello bodies up to the stated length, for every enabled cipher suite / group configuration.",
  NOT + "Acceptance is a predicate over all byte strings; a wrongly accepted one is a rare point in that space.",
  ["src/server_hello.rs", "src/extensions.rs", "src/extensions/key_share.rs", "src/extensions/versions.rs", "src/cipher_suites.rs", "src/handshake.rs"],
  [("ServerHello checks", "src/server_hello.rs server_hello_client"), ("extension iteration", "src/extensions.rs parse_ser_hel_exts/ExtIter"), ("suite intersection", "src/cipher_suites.rs parse_singular")],
  ["return of turtls_connect", "turtls_get_tls_error", "bytes passed to write_fn", "calls of close_fn"])
p("T04", "Handshake traffic keys follow the TLS 1.3 key schedule",
  "After an acceptable ServerHello, the keys and IVs that protect the two directions are those RFC 8446 section 7 derives from the ECDHE secret of the two key shares and the hash of exactly the ClientHello and ServerHello messages as sent and received, for either cipher suite and independent of how the messages were cut into records.",
  ["inputs", "configurations", "histories"], "All random values, server random bytes, cipher suite choices and fragmentations; client and server reads/writes both.",
  NOT + "A transcript or label error only shows against an independent peer, over all messages and fragmentations.",
  ["src/key_schedule.rs", "src/aead.rs", "src/state.rs", "src/handshake.rs", "src/extensions/key_share.rs", "crylib/src/hkdf.rs", "crylib/src/hash/buf_hasher.rs"],
  [("HKDF-Expand-Label", "src/key_schedule.rs"), ("traffic secrets", "src/aead.rs shake_aead/new"), ("transcript", "src/handshake.rs read_inner/write_raw")],
  ["whether a record protected by an independent server is accepted", "alert records sent by the client"])
p("T05", "After ServerHello only authentic, in-order records are used",
  "Once keys are established, the client acts only on records that are authentic under the server's key with the next sequence number and the record header as associated data, with any amount of zero padding; the first record that is forged, altered in any bit, replayed, reordered, plaintext (other than change_cipher_spec), empty of content, or wrongly sized makes it alert, close and fail. Plaintext content never influences the negotiated state after that point.",
  ["inputs", "histories"], "All record bodies, tags, headers, paddings and inner types, at every sequence number reached.",
  NOT + "Needs every modification of every byte, and sequences of records.",
  ["src/record/read.rs", "src/aead.rs", "src/handshake.rs", "crylib/src/aead/gcm.rs", "crylib/src/aead/chacha.rs"],
  [("deprotect", "src/record/read.rs"), ("nonce counter", "src/aead.rs decrypt_inline")],
  ["return of turtls_connect", "turtls_get_tls_error", "turtls_app_proto", "write_fn / close_fn"])
p("T06", "Interrupted reads resume without loss",
  "If the read callback fails or returns fewer bytes than asked for at any point, turtls_connect reports WantRead and a later call continues exactly where it stopped: for every pattern of partial and failing reads the outcome, the negotiated state and everything the client sends are the same as when the stream arrives in one piece, and the callback is never asked for bytes past the end of the current record.",
  ["fault_sequences", "schedules", "inputs"], "All cuts of the server stream into successful short reads and failures.",
  NOT + "The number of cut patterns is exponential; the defect typically sits at one boundary.",
  ["src/record/read.rs", "src/handshake.rs", "src/lib.rs"],
  [("NeedsHeader/NeedsData/Moving", "src/record/read.rs"), ("handshake ReadStatus", "src/handshake.rs")],
  ["turtls_get_error", "arguments of read_fn", "bytes passed to write_fn"])
p("T07", "Interrupted writes resume without loss or repetition",
  "If the write callback accepts only part of the data or fails at any point while the ClientHello is sent, turtls_connect reports WantWrite and a later call sends exactly the remaining bytes: the concatenation of everything accepted is one and the same well-framed record stream, with records of at most 2^14 bytes, whatever the pattern of partial and failing writes, and the handshake then works with exactly the hello that was sent.",
  ["fault_sequences", "schedules", "configurations"], "All patterns of short and failing writes, for hellos of one and of several records.",
  NOT + "Same as for reads: the failing pattern is one in exponentially many.",
  ["src/record/write.rs", "src/handshake.rs", "src/client_hello.rs"],
  [("record_bytes / total_bytes", "src/record/write.rs"), ("ClientHello state", "src/handshake.rs handshake_client")],
  ["bytes accepted by write_fn", "turtls_get_error"])
p("T08", "Message meaning is independent of record boundaries",
  "A handshake message means the same whether it arrives in one record, split over any number of records, or packed with other messages in one record, up to the documented message size limit; empty handshake fragments, records of another type in the middle of a message, and messages that span the ServerHello key change are rejected with an alert, never misread.",
  ["inputs", "histories"], "All partitions of the handshake byte stream into records within the bounds, all lengths.",
  NOT + "Fragmentation patterns are combinatorial.",
  ["src/handshake.rs", "src/record/read.rs"],
  [("reassembly", "src/handshake.rs read_inner"), ("record cursor", "src/record/read.rs read_remaining")],
  ["return of turtls_connect", "alerts", "turtls_app_proto"])
p("T09", "Failures are reported truthfully and close the connection once",
  "When turtls_connect fails for a protocol reason, turtls_get_error says whether this side or the peer raised it, turtls_get_tls_error is the alert that was sent (as one fatal alert record) or the one the peer sent (unknown codes become a generic error), and the close callback has run exactly once; after WantRead or WantWrite nothing is closed and no alert is sent; a later turtls_close neither sends nor closes a second time. Every alert code has its own non-empty, nul-terminated description.",
  ["inputs", "histories"], "All peer alert bytes, all failure causes, all orders of close after failure.",
  NOT + "All 256x256 alert contents and each failure site followed by each API call.",
  ["src/lib.rs", "src/error.rs", "src/alert.rs", "src/handshake.rs", "src/record/read.rs", "src/record/write.rs"],
  [("error mapping", "src/handshake.rs map_err closures"), ("alert codes", "src/alert.rs from_byte/turtls_stringify_alert"), ("close", "src/record/write.rs close_raw/close")],
  ["turtls_get_error", "turtls_get_tls_error", "write_fn", "close_fn"])
p("T10", "EncryptedExtensions and ALPN are taken only as offered",
  "turtls_app_proto is the nul-terminated protocol the server selected in EncryptedExtensions, exactly one protocol which the client offered, and the empty string if none was selected; malformed, duplicate or unsolicited extensions and selections outside the offer are refused with an alert.",
  ["inputs", "configurations", "histories"], "All EncryptedExtensions bodies within the bounds; all protocol lists offered.",
  NOT + "Acceptance is a predicate over all byte strings and all offers.",
  ["src/extensions.rs", "src/extensions/app_proto.rs", "src/handshake.rs"],
  [("parse_encrypted_extensions", "src/extensions.rs"), ("parse_app_proto_client", "src/extensions/app_proto.rs")],
  ["turtls_app_proto", "turtls_get_tls_error"])
p("T11", "A reused connection object starts afresh",
  "After a connection has failed or been closed at any point, the next turtls_connect on the same object behaves as on a new object with the same configuration: a complete new ClientHello with fresh random bytes, a fresh transcript and sequence numbers, no bytes of the earlier stream reused, and no result of the earlier connection visible.",
  ["histories", "fault_sequences"], "All points at which the first connection may stop, and all later connections.",
  NOT + "Requires two-connection histories with an arbitrary stopping point.",
  ["src/lib.rs", "src/state.rs", "src/record.rs", "src/handshake.rs"],
  [("turtls_connect TlsStatus::None", "src/lib.rs"), ("turtls_close", "src/lib.rs")],
  ["bytes passed to write_fn", "behaviour of the second handshake", "turtls_app_proto"])
p("T12", "Records the client protects are correct and never reuse a nonce",
  "Every record the client sends after keys are established is a well-formed TLS 1.3 ciphertext record that the server, knowing the keys, decrypts to exactly one message of the intended type, with sequence numbers 0,1,2,... each used once, and nothing is sent in plaintext any more.",
  ["histories", "inputs"], "All causes of protected output (alerts for each failure, close_notify) and their order, both suites.",
  NOT + "Only an independent peer can tell; all orders of alert and close matter.",
  ["src/record/write.rs", "src/aead.rs", "src/lib.rs"],
  [("protect/finish", "src/record/write.rs"), ("nonce counter", "src/aead.rs encrypt_inline")],
  ["bytes passed to write_fn"])
p("T13", "Certificates are parsed strictly and never crash the client",
  "For every Certificate message, malformed framing, a certificate whose DER objects overrun what contains them or that lacks a required field with the required tag, an unsupported version or algorithm, or an invalid signature value ends the handshake with a decode, bad-certificate or unsupported-certificate alert; the client never reads outside the message, aborts, or treats an unvalidated chain as accepted.",
  ["inputs"], "All Certificate message bodies within the stated length and structure bounds.",
  NOT + "DER is length-prefixed data nested to arbitrary depth; the failing length is one in millions.",
  ["src/handshake.rs", "src/certificates.rs", "src/certificates/der.rs", "src/certificates/x509.rs"],
  [("CertIter", "src/certificates.rs"), ("DerIter", "src/certificates/der.rs"), ("validate_cert", "src/certificates/x509.rs")],
  ["return of turtls_connect", "turtls_get_tls_error"])
# ------------------------------------------------------------------ crylib
KAT = "The tests compare a few fixed vectors; "
p("C01", "SHA-256 is SHA-256",
  "For every message, of every length, the SHA-256 hasher returns the FIPS 180-4 digest, including all padding boundaries.",
  ["inputs"], "All message contents; all lengths within the bound (several blocks).",
  KAT + "a wrong constant, rotation or padding path that those vectors do not exercise stays invisible.",
  ["crylib/src/hash/sha256.rs"], [("compression and padding", "crylib/src/hash/sha256.rs")], ["Sha256::hash", "Sha256::finish"])
p("C02", "SHA-512 is SHA-512",
  "For every message, of every length, the SHA-512 hasher returns the FIPS 180-4 digest, including all padding boundaries.",
  ["inputs"], "All message contents; all lengths within the bound (several blocks).",
  KAT + "padding boundaries and rare carries are not covered.",
  ["crylib/src/hash/sha512.rs"], [("compression and padding", "crylib/src/hash/sha512.rs")], ["Sha512::hash"])
p("C03", "Streaming equals one-shot hashing",
  "However a message is cut into update calls, on a fresh hasher, the buffered hasher yields the digest of the concatenation, both when finished and when queried in between, and a query does not change later results.",
  ["inputs", "histories"], "All sequences of chunk lengths within the bound, all contents.",
  KAT + "the buffering bug sits at one specific combination of fill level and chunk length.",
  ["crylib/src/hash/buf_hasher.rs", "crylib/src/hash/sha256.rs"], [("BufHasher::update_with", "crylib/src/hash/buf_hasher.rs")], ["BufHasher::get/finish"])
p("C04", "HMAC follows RFC 2104 for every key and message length",
  "For every key (empty, shorter than, equal to and longer than the hash block) and every message, however it is fed in, the HMAC result is that of RFC 2104.",
  ["inputs"], "All key and message contents, all lengths within the bound, SHA-256 and SHA-512.",
  KAT + "keys longer than the block are not tested.",
  ["crylib/src/hmac.rs"], [("Hmac::new/finish", "crylib/src/hmac.rs")], ["Hmac::auth"])
p("C05", "HKDF follows RFC 5869 for every length",
  "HKDF extract and expand return the RFC 5869 values for every salt, input key, info string and output length up to 255 hash lengths, writing the whole output buffer and nothing else.",
  ["inputs"], "All contents; all output lengths and info lengths within the bound.",
  KAT + "multi-block and non-multiple output lengths are sampled at most once.",
  ["crylib/src/hkdf.rs"], [("expand", "crylib/src/hkdf.rs")], ["hkdf::extract", "hkdf::expand"])
p("C06", "ChaCha20 is ChaCha20",
  "For every key, nonce, counter and message, encryption XORs the RFC 8439 keystream into exactly the message bytes (in place or into a separate buffer whose other bytes stay untouched), so that decryption with the same parameters restores the message.",
  ["inputs"], "All keys, nonces, counters and contents; all lengths within the bound.",
  KAT + "partial blocks and buffers longer than the message are not tested.",
  ["crylib/src/aead/chacha/chacha20.rs"], [("block function", "crylib/src/aead/chacha/chacha20.rs")], ["chacha20::encrypt", "chacha20::encrypt_inline"])
p("C07", "Poly1305 is Poly1305",
  "For every key and message the authenticator equals RFC 8439 Poly1305, including accumulator values at and above the modulus, final blocks of every length, and every way of feeding the message.",
  ["inputs"], "All keys and contents for messages within the bound.",
  KAT + "values at the modulus boundary occur with probability about 2^-128 for random samples.",
  ["crylib/src/aead/chacha/poly1305.rs", "crylib/src/finite_field/field_element.rs", "crylib/src/big_int/unsigned.rs"], [("Poly1305::update/finish", "crylib/src/aead/chacha/poly1305.rs")], ["Poly1305::auth"])
p("C08", "AES-128/192/256 are AES",
  "For every key and block, key expansion and block encryption give the FIPS 197 result, for all three key sizes.",
  ["inputs"], "All keys and blocks.",
  KAT + "a wrong S-box entry or round-key word shows only for some inputs.",
  ["crylib/src/aead/gcm/aes.rs"], [("expand_key / encrypt", "crylib/src/aead/gcm/aes.rs")], ["Aes128/192/256 through AesCipher"])
p("C09", "GCM encryption and tag follow SP 800-38D",
  "For every key, IV, plaintext and associated data, AES-GCM ciphertext and tag are those of NIST SP 800-38D, for every combination of lengths including empty, partial and whole blocks of both inputs.",
  ["inputs"], "All contents; all pairs of associated-data and message lengths within the bound.",
  KAT + "which length combinations are padded is the classic defect, and only a few are sampled.",
  ["crylib/src/aead/gcm.rs", "crylib/src/aead/gcm/aes.rs"], [("g_hash / gf_mult", "crylib/src/aead/gcm.rs"), ("CTR", "crylib/src/aead/gcm/aes.rs")], ["Gcm::encrypt_inline/encrypt"])
p("C10", "AEAD decryption inverts encryption and rejects every forgery",
  "For both AEADs and all inputs, decrypting what was encrypted returns the original plaintext, and the tag of ChaCha20-Poly1305 is that of RFC 8439; if the received tag differs in any bit from the correct tag for the received ciphertext, associated data, key and nonce, decryption fails and the caller's buffer is not replaced by decrypted plaintext.",
  ["inputs"], "All keys, nonces, contents, tags; all length pairs within the bound.",
  KAT + "rejection must hold for all 2^128 wrong tags and every byte.",
  ["crylib/src/aead/chacha.rs", "crylib/src/aead/gcm.rs", "crylib/src/aead.rs"], [("tag comparison", "crylib/src/aead/gcm.rs, crylib/src/aead/chacha.rs decrypt_inline")], ["Aead::encrypt_inline/decrypt_inline/encrypt/decrypt"])
p("C11", "Big unsigned integers: add, subtract, shift, bits, bytes, order",
  "For all operands of every supported width, addition and subtraction (with their overflow flags), doubling, shifts, bitwise operations, bit and byte access, digit and bit counts, comparison, resizing and byte conversions of unsigned big integers equal the mathematical result modulo 2^width.",
  ["inputs"], "All operand values at widths 1 to 8 digits; all shift amounts and indices.",
  KAT + "carry chains and shift amounts at digit boundaries are unsampled.",
  ["crylib/src/big_int/unsigned.rs"], [("digit loops", "crylib/src/big_int/unsigned.rs")], ["UBigInt methods"])
p("C12", "Big unsigned integers: multiplication and division",
  "For all operands, digit multiplication and widening multiplication give the exact product, and division gives the unique quotient and remainder with remainder smaller than the divisor, for every nonzero divisor.",
  ["inputs"], "All operand values: exact products at widths of up to 4 digits; division for all divisors within stated windows.",
  KAT + "the quotient-correction step of long division is reached by very few operands.",
  ["crylib/src/big_int/unsigned.rs"], [("widening_mul / div", "crylib/src/big_int/unsigned.rs")], ["UBigInt::widening_mul", "UBigInt::div"])
p("C13", "Big signed integers behave as two's complement",
  "For all operands, negation, absolute value, addition, subtraction, comparison, resizing, multiplication and division of signed big integers agree with two's-complement integers, and ordering is a total order consistent with equality.",
  ["inputs"], "All operand values including minimum values and mixed signs.",
  KAT + "negative operands are hardly tested.",
  ["crylib/src/big_int/signed.rs"], [("sign handling", "crylib/src/big_int/signed.rs")], ["BigInt methods"])
p("C14", "Finite-field arithmetic is correct and canonical",
  "Every field operation (construction, add, double, subtract, negate, multiply, square, divide, invert, multiply by a digit, conversion) on values below the modulus yields the canonical representative of the mathematical result, for every modulus the library supports.",
  ["inputs", "configurations"], "All operands; the shipped 256-bit moduli and small moduli of every digit count.",
  KAT + "the reduction branch for sums and products close to the modulus is almost never sampled.",
  ["crylib/src/finite_field/field_element.rs", "crylib/src/finite_field.rs"], [("conditional subtraction", "crylib/src/finite_field/field_element.rs")], ["FieldElement methods"])
p("C15", "Elliptic-curve points form the group they should",
  "On every supported curve, point addition, doubling, negation, equality, conversion between affine and projective form, and scalar multiplication agree with the curve's group law for all points and scalars, including the point at infinity, equal points, inverse points, and scalars zero, one and order minus one.",
  ["inputs"], "All points and scalars of small curves instantiated through the public traits (complete), representative families on P-256.",
  KAT + "exceptional cases of the addition formula are reached only by specific pairs of points.",
  ["crylib/src/ec/point/projective.rs", "crylib/src/ec/point/affine.rs"], [("complete addition", "crylib/src/ec/point/projective.rs add/double"), ("double-and-add", "mul_scalar")], ["ProjectivePoint/AffinePoint methods"])
p("C16", "ECDSA signs verifiably and rejects what it should",
  "For every private key, hash and randomness for which signing returns, the signature is valid for the corresponding public key under the ECDSA equation, and verification accepts exactly the pairs (r, s), both nonzero, that satisfy the equation for the key and hash; neither operation panics on any input.",
  ["inputs"], "All keys, hashes, nonces and candidate signatures on small curves instantiated through the public traits; structure on P-256.",
  KAT + "zero and boundary values of r, s and the nonce are not sampled.",
  ["crylib/src/ec/ecdsa.rs"], [("sign / verify_signature", "crylib/src/ec/ecdsa.rs")], ["ecdsa::sign", "ecdsa::verify_signature"])
p("C17", "P-256 is P-256 and key agreement commutes",
  "The shipped secp256r1 parameters are the standard ones (field, order, coefficients, base point on the curve, base point times order is infinity), points are accepted exactly when both coordinates are reduced and satisfy the curve equation, and two parties computing the shared secret from each other's public key obtain the same value.",
  ["inputs"], "All candidate coordinates for the acceptance test (within solver reach); fixed parameters.",
  KAT + "acceptance of off-curve or unreduced points needs adversarial coordinates.",
  ["crylib/src/ec/secp256r1.rs", "crylib/src/ec/point/affine.rs", "src/extensions/key_share.rs"], [("parameters", "crylib/src/ec/secp256r1.rs"), ("is_on_curve", "crylib/src/ec/point/affine.rs")], ["AffinePoint::new", "Secp256r1 constants"])
p("C18", "Secret-dependent timing",
  "The running time and memory-access pattern of key, tag and scalar processing do not depend on secret values.",
  ["inputs"], "All secrets.",
  "Functional tests do not observe time.",
  ["crylib/src/ec/point/projective.rs", "crylib/src/aead/gcm.rs", "crylib/src/aead/gcm/aes.rs"], [("none: table lookups and branches on secrets are present", "crylib/src")], ["timing"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
