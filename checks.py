"""Which harness entries decide which property, with bounds. Used by vf.py."""
COMMON_ASSUMPTIONS = [
    'rustc/LLVM translate the source to IR correctly and the executor (engine/) models the IR faithfully; sampled paths are replayed natively',
    'z3 answers unsat only for unsatisfiable queries',
    'the reference models in harness/src/spec are the standards they are written from',
    'x86-64, overflow checks and debug assertions on (as in a dev build)',
]
def E(name, **k): return dict(name=name, **k)
CHECKS = {
 'C01': dict(feature='c01', bounds='hash(): every message of every length 0..=192 bytes; block-wise use: 0..=2 whole blocks then finish, or finish_with of 0..=128 bytes; every byte symbolic', outside='longer messages',
   entries=[E('c01_hash_all_lengths', split=('len', 4), weight=3), E('c01_blocks', split=('tail', 4), weight=5)]),
 'C02': dict(feature='c02', bounds='hash(): every message of every length 0..=288 bytes; block-wise use as in C01 with 128-byte blocks; every byte symbolic', outside='longer messages',
   entries=[E('c02_hash_all_lengths', split=('len', 4), weight=3), E('c02_blocks', split=('tail', 4), weight=5)]),
 'C03': dict(feature='c03', bounds='buffered hasher over an injective toy block hasher with 4-byte blocks: every sequence of three updates of 0..=9 bytes (or whole-block updates) with a query after each, and every finish; SHA-256: first update of every length 0..=130, second of fourteen lengths, two queries and a finish; SHA-512: fifteen x fifteen lengths; all bytes symbolic', outside='more updates and longer messages than that',
   entries=[E('c03_all_cuts_small_block', split=('last', 4), weight=3), E('c03_sha256_pairs', split=('first', 6), weight=5), E('c03_sha512_pairs', split=('first', 2), weight=3)]),
 'C04': dict(feature='c04', bounds='HMAC-SHA256: every key length 0..=200 (message 5 bytes; thorough also 0 and 64), every message length 0..=140 (key 32 and 65 bytes; thorough also 0, 63, 64, 129), incremental and buffered feeding for six key lengths and six split points; HMAC-SHA512: nine key lengths x seven message lengths; every key and message byte symbolic', outside='longer keys and messages, other pairs of lengths',
   entries=[E('c04_sha256_keys', split=('klen', 2)), E('c04_sha256_msgs', split=('mlen', 3)), E('c04_sha256_incremental', split=('klen', 3)), E('c04_sha512', split=('klen', 2)), E('c04_sha256_keys_more', tier='thorough', split=('klen', 3)), E('c04_sha256_msgs_more', tier='thorough', split=('mlen', 3))]),
 'C05': dict(feature='c05', bounds='extract: nine salt lengths x eight key lengths; expand: SHA-256 every output length 0..=100 (info of 18 bytes, and 0, 1, 60 at boundaries) with guard bytes around the output, SHA-512 seven lengths up to 130; output lengths up to the maximum of 255 hash lengths over a two-byte toy hash; all bytes of salt, key material and info symbolic', outside='other lengths',
   entries=[E('c05_extract'), E('c05_expand_sha256', split=('len',3)), E('c05_expand_sha512'), E('c05_expand_all_lengths', split=('len', 2))]),
 'C06': dict(feature='c06', bounds='in place: every message length 0..=200 with symbolic key, nonce, counter (<= 2^32-4) and data; last counter values; separate buffers: nine lengths x four excess lengths; one message of 2^14+256 bytes with 20 symbolic key and nonce bytes', outside='longer messages',
   entries=[E('c06_inline', split=('len', 4), weight=3), E('c06_long', weight=6), E('c06_last_counter'), E('c06_separate', split=('len', 2))]),
 'C08': dict(feature='c08', bounds='none: one key and one block, all bits symbolic, for each key size', outside='nothing (16-, 24- and 32-byte keys are all there are)',
   entries=[E('c08_aes128'), E('c08_aes192'), E('c08_aes256')]),
 'C09': dict(feature='c09', bounds='ciphertext: every message length 0..=65 with symbolic key, IV and data, and one message of 2^14+256 bytes under a fixed key and IV; tag: fourteen x fourteen associated-data and message lengths 0..=65 with symbolic IV and data under a fixed key, four associated-data lengths with a symbolic key (the tag is linear in the data for a fixed key)', outside='longer inputs; message-dependent tags under a symbolic key; AES-192/256 in GCM beyond C08',
   entries=[E('c09_ctr_all_lengths', split=('len', 2)), E('c09_tag_lengths', split=('aad_len', 14)), E('c09_ctr_long'), E('c09_tag_symbolic_key', split=('lens', 4))]),
 'C11': dict(feature='c11', bounds='widths of 1 to 8 digits (some operations up to 16), all digits, shift amounts and flags symbolic, every bit and byte index', outside='other widths',
   entries=[E('c11_addsub', split=('n', 8), weight=5), E('c11_counts', split=('n', 5), weight=4), E('c11_align', split=('top', 4), weight=3), E('c11_addsub_wide', split=('n', 3), tier='thorough'), E('c11_counts_wide', split=('n', 2), tier='thorough')] + [E('c11_'+n) for n in 'order bitwise shifts bits symbolic_index resize bytes'.split()]),
 'C13': dict(feature='c13', bounds='widths of 1 to 8 digits, all digits and signs symbolic; pairs of widths for resizing', outside='other widths; multiplication and division',
   entries=[E('c13_'+n) for n in 'basics addsub order resize'.split()]),
 'C10': dict(feature='c10', bounds='AES-GCM: twelve pairs of associated-data and message lengths up to 64 bytes, IV, data and (round trip) key symbolic, received tag and ciphertext symbolic under a fixed key', outside='longer inputs',
   entries=[E('c10_gcm_roundtrip', split=('lens', 6)), E('c10_gcm192_roundtrip'), E('c10_gcm256_roundtrip'), E('c10_gcm_forgery', split=('lens', 6), reach=['C10.rejected', 'C10.accepted'])]),
 'T04': dict(feature='t04', repo=True, bounds='AES suite with both randoms symbolic (4 ways of cutting and padding), and with a symbolic server name of 1, 37 or 200 bytes and protocol; both suites from end to end against the reference models: every cut of the ServerHello into two records, extension orders, change_cipher_spec records in between; seven key pairs per suite (full-size scalars, leading and trailing zero bytes in the shared secret and the public coordinates)', outside='symbolic private keys (the ECDHE secret itself is C15/C17); symbolic randoms with ChaCha20-Poly1305',
   entries=[E('t04_randoms', split=('way', 4), weight=6), E('t04_config', split=('len', 3), weight=8), E('t04_cuts', split=('cut', 4), weight=3), E('t04_key_pairs', split=('keys', 7), weight=4)]),
 'T06': dict(feature='t06', repo=True, bounds='five flights (ServerHello to Certificate, fragmented and packed messages, late alert, refused ServerHello, plaintext alert; about 450 bytes), both suites; deliveries in pieces of any size 1..=64 (a symbolic number), plain or with a failing read (negative or zero) before each; one cut at any position with a short or failing read there; two failing cuts at any position, at most 5 apart; the content bytes the outcome may not depend on are symbolic, as are the alert bytes', outside='arbitrary sequences of different piece sizes',
   entries=[E('t06_pieces', split=('part', 8), weight=3), E('t06_one_cut', split=('part', 8), weight=4), E('t06_two_cuts', split=('part', 8), weight=5)]),
 'T07': dict(feature='t07', repo=True, bounds='hello of one record: acceptance in pieces of any size 1..=200 (symbolic), plain or each preceded by a refusal (negative or zero), and two cuts at any positions (at most 3 apart) with none, one or both refused; hello of two records (17000-byte name): cuts within 4 bytes of the start of each record and its header, pieces of 700 to 15000 bytes; turtls_close with the hello cut at any position, also close to the record boundary; the handshake is carried to Certificate with symbolic irrelevant content', outside='arbitrary sequences of different piece sizes; other message lengths',
   entries=[E('t07_pieces', split=('part', 8), weight=3), E('t07_cuts', split=('part', 8), weight=4), E('t07_long', split=('how', 8)), E('t07_close', split=('where', 3))]),
 'T08': dict(feature='t08', repo=True, bounds='ServerHello, and EncryptedExtensions with Certificate as one stream, cut at any two positions at most 6 apart (symbolic); records of one to three bytes; empty handshake records and records of any other type (symbolic type and content) at any position before and after the key change; symbolic bytes behind the ServerHello in its record; every 24-bit length of the first three messages; messages of 16381 to 65537 bytes and of the greatest size 2^17 (and one less)', outside='three and more cuts at arbitrary positions',
   entries=[E('t08_server_hello', split=('part', 8), weight=3), E('t08_other_messages', split=('part', 8), weight=3), E('t08_bytewise'), E('t08_intruders', split=('part', 8), weight=4), E('t08_spans_key_change'), E('t08_length', weight=2), E('t08_largest', split=('less', 2), weight=4), E('t08_long', split=('len', 5))]),
 'T05': dict(feature='t05', repo=True, bounds='the first protected record with any 128-bit change of its tag, any change of one byte of its type, version or ciphertext, and (AES-GCM) any change of version, ciphertext and tag together but those the tag of a key holder fits; sixteen orders of sequence numbers up to 2^64-1 and use of the wrong direction\'s key; 300 records in order and one replayed among them; plaintext records of any type and content of 0 to 30 bytes in place of protected ones; every length field; padding of 0 to 16384 bytes; content of up to 2^14 bytes and more', outside='records of other sizes under symbolic alteration; for ChaCha20-Poly1305 alterations of ciphertext and header by three fixed masks only',
   entries=[E('t05_altered', weight=3), E('t05_altered_chacha', weight=2), E('t05_order', weight=2), E('t05_many'), E('t05_bare'), E('t05_padding', weight=2), E('t05_empty', weight=2), E('t05_size'), E('t05_content', weight=2)]),
 'T09': dict(feature='t09', repo=True, bounds='alerts of the peer with any level and code and of 0, 1, 2, 3 and 40 bytes at six stages of the handshake, plain and sealed; nine kinds of failure of this side with the alert accepted in pieces of any size, or only up to any byte; turtls_close before, during and after every stage, with reads stopped anywhere in the ServerHello and in the first protected record; refused configurations with any unknown bits; a failing random source at each call; private keys 0 and n; every pair of alert descriptions', outside='failures other than the nine (their reporting is checked along with the other TLS properties)',
   entries=[E('t09_peer_alert'), E('t09_peer_alert_chacha'), E('t09_own_alert', split=('failure', 9), weight=3), E('t09_close', split=('stage', 5)), E('t09_close_unwritable', split=('stage', 2), weight=2), E('t09_refusals'), E('t09_stringify')]),
 'T12': dict(feature='t12', repo=True, bounds='twelve ways for the protected part of a connection to end (turtls_close and ten refusals at each message); AES-GCM under any client and server random, hence any keys; both suites against independent models with three hellos and shared secrets; the record accepted in pieces of any size; a second connection of the same object with keys of its own', outside='application data and later handshake messages, which the client cannot send yet; for ChaCha20-Poly1305 symbolic keys',
   entries=[E('t12_any_keys', split=('kind', 12), weight=2), E('t12_models', split=('name', 3)), E('t12_pieces', split=('suite', 2)), E('t12_again', split=('kind', 12), weight=2)]),
 'T11': dict(feature='t11', repo=True, bounds='a first connection that failed in ten ways (peer alert, refused or oversized messages, bad tags, partial records and messages, a negotiated protocol), or was given up after any byte of its input or output, or could not begin, or could not send its alert beyond any byte; then a second one that is refused, completes or stays open, its output and result compared with those of a new object; AES-GCM under any random of the second connection', outside='more than two connections of one object; changes of the configuration in between (T02)',
   entries=[E('t11_failed', split=('first', 5), weight=2), E('t11_any_random', split=('first', 3), weight=4), E('t11_reading', split=('part', 8), weight=5), E('t11_writing', split=('part', 4), weight=3), E('t11_refused', split=('why', 4), weight=2)]),
 'T10': dict(feature='t10', repo=True, bounds='every EncryptedExtensions body of up to 16 bytes with four offers; seven shapes of one to four extensions with any types below 64 and any contents; protocol names of one to six bytes, any, against any offer of one to four names; names of 128 to 255 bytes', outside='longer bodies with symbolic extension lengths',
   entries=[E('t10_any', split=('offer', 4), weight=3), E('t10_shapes', split=('shape', 7)), E('t10_names', split=('offer', 6), weight=4), E('t10_long')]),
 'T02': dict(feature='t02', repo=True, bounds='any bits in the cipher suite, group and signature algorithm sets; server names of 0 to 256 bytes and protocol lists of 0 to 300 bytes with any content, each present or absent; hellos of more than one record and up to (and one beyond) the limit of 65535 bytes of extensions; any hello random; fourteen private keys (1, small, full-size, close to the group order, and the same plus the order); repeated connections', outside='other private keys (C15, C17); two long symbolic fields at once',
   entries=[E('t02_bits'), E('t02_default'), E('t02_names', split=('name', 10), weight=2), E('t02_absent'), E('t02_large', weight=2), E('t02_largest'), E('t02_random')]),
 'T03': dict(feature='t03', repo=True, bounds='ServerHello bodies: all bytes of a full-length message at once but random and coordinates, in both extension orders and for each set of offered suites; every body of up to 52 bytes with a fixed random; twelve lists of one to four extensions with any types and contents; key shares of fourteen lengths for any group and form; 36 points on and off the curve, with coordinates at and beyond the modulus; any message type; HelloRetryRequests and randoms next to theirs', outside='arbitrary coordinates (the curve equation is C15) and random bytes (T04); legacy_version other than 0303',
   entries=[E('t03_fields', split=('offer', 3), weight=3, reach=['T03.accepted']), E('t03_short', split=('len', 4)), E('t03_shapes', split=('shape', 2), reach=['T03.accepted']), E('t03_share_lengths'), E('t03_points', split=('point', 2), reach=['T03.accepted']), E('t03_type'), E('t03_retry')]),
 'T13': dict(feature='t13', repo=True, bounds='Certificate messages of up to 10 bytes, any content; the length fields around the certificates, alone and together in short messages; for each of the 21 DER headers of a certificate any tag and length, with any two bytes after, in short and long form, and two neighbouring headers at once (the first length within 3 of the right one, thorough: any); lengths of 1 to 127 bytes; any version, algorithm, unused-bits byte and tag; scalars of 0 to 34 bytes, any content; a certificate cut anywhere, or with any byte inserted anywhere, or with any byte replaced, alone or after a good one', outside='several distant symbolic fields at once; contents the client does not look into',
   entries=[E('t13_short', split=('len', 11), weight=2), E('t13_framing', split=('shape', 8), weight=2, reach=['T13.well-formed']), E('t13_headers', split=('object', 21), weight=4, reach=['T13.well-formed']), E('t13_long_form', split=('bytes', 2)), E('t13_pairs', split=('object', 10), weight=3), E('t13_pairs_far', tier='thorough', split=('object', 20), weight=5), E('t13_version', reach=['T13.well-formed']), E('t13_scalars', split=("len", 7), weight=2, reach=['T13.well-formed']), E('t13_cut', split=('part', 8), weight=4), E('t13_byte', split=('part', 8), weight=4, reach=['T13.well-formed'])]),
 'T01': dict(feature='t01', repo=True, bounds='any stream of up to 12 bytes, ended in three ways or delivered bytewise; one or two records of any type with lengths up to 200 and any bytes at the front; records and messages at and beyond the greatest lengths, with the bytes to fill them, before and after the key change; any ServerHello random and legacy version with nothing, a partial or a plaintext record behind; any header after the key change with up to 18 bytes; any protected content of up to 10 bytes in one or two records, and messages of any type of up to 40 bytes with any first nine, at both stages; overflow, out-of-bounds and other panics are decided on every path of every TLS check', outside='long streams with all bytes symbolic at once',
   entries=[E('t01_stream', split=('len', 13), weight=2), E('t01_record', split=('len', 9), weight=3), E('t01_great', split=('len', 7)), E('t01_hello'), E('t01_after', split=('len', 6)), E('t01_sealed', split=('len', 11), weight=3), E('t01_messages', split=('len', 3), weight=2)]),
}
NOT_APPLICABLE = {
 'C18': 'a timing property: neither the source semantics nor LLVM IR determines the time or the micro-architectural trace, so an SMT verdict over the IR would not decide it',
}
