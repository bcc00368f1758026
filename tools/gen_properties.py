#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Kept as a script so the texts stay reviewable."""
import json, os
A="anothertls/src/"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,hook=None,state=None):
    d={"id":id,"title":title,"statement":statement,
       "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
       "anchors":{"files":[A+f for f in files],
                  "mechanism":[{"name":n,"where":A+w} for n,w in mech],
                  "observe_at":observe,"hook_needed":hook}}
    if state: d["anchors"]["state"]=[{"name":n,"meaning":m,"where":A+w} for n,m,w in state]
    P.append(d)

p("P01","SHA-256 and SHA-384 digests are the FIPS 180-4 digests for every message",
  "For every message and every way of feeding it in pieces (including empty pieces), the incremental SHA-256 and SHA-384 hashers return exactly the digest FIPS 180-4 defines for the concatenation of the pieces. Asking for the digest does not disturb the running state: more data can be fed afterwards and the next digest covers everything fed so far. The one-shot functions agree with the incremental ones.",
  ["inputs","histories"],"All byte strings of any length below 2^53 bytes, all sequences of update/finalize calls.",
  "The tests hash a handful of short strings with one update each; block-boundary splits, the padding corner lengths and finalising in the middle of a transcript are never exercised, and no finite sample covers all lengths.",
  ["hash/sha256.rs","hash/sha384.rs","hash/mod.rs"],
  [("compression function","hash/sha256.rs: Sha256::calc_round"),("buffering and counting","hash/sha256.rs: TranscriptHash::update"),("padding","hash/sha256.rs: Sha256::padd_input"),("output","hash/sha256.rs: TranscriptHash::finalize"),("same for SHA-384","hash/sha384.rs")],
  ["hash::sha256, hash::sha384","Sha256/Sha384 through TranscriptHash"])
p("P02","HMAC over SHA-256 and SHA-384 is RFC 2104 HMAC for every key and message",
  "For every key of any length and every message fed in any pieces, the HMAC result equals H((K xor opad) || H((K xor ipad) || message)) with K the key zero-padded to the hash's block size (64 bytes for SHA-256, 128 for SHA-384), where a key longer than the block is hashed first.",
  ["inputs"],"All keys of all lengths, all messages and splittings, both hashes.",
  "One RFC 4231 vector set with few key lengths is tested and only for SHA-256-size blocks; the key-length boundary of SHA-384 (65 to 129 bytes) is not sampled.",
  ["hash/hmac.rs"],[("key preparation","hash/hmac.rs: Hmac::new"),("message","hash/hmac.rs: Hmac::update"),("outer hash","hash/hmac.rs: Hmac::result")],["hash::Hmac"])
p("P03","HKDF extract and expand follow RFC 5869 for every input and output length",
  "Extraction returns HMAC(salt, ikm) and expansion returns the first L bytes of T(1)||T(2)||... with T(i)=HMAC(PRK, T(i-1)||info||i), for every salt, key material, info and every L up to 255 times the hash length. A longer request is refused rather than answered with wrong bytes.",
  ["inputs"],"All salts, keys, infos and all requested lengths, both hashes.",
  "One RFC 5869 vector is tested; output lengths at multiples of the hash length, zero length, more than one block with SHA-384 and the 255-block limit are not.",
  ["hash/hkdf.rs"],[("extract","hash/hkdf.rs: Hkdf::extract"),("expand","hash/hkdf.rs: Hkdf::expand"),("prk import","hash/hkdf.rs: Hkdf::from_prk")],["hash::Hkdf"])
p("P04","Handshake and application keys follow the TLS 1.3 key schedule",
  "For every (EC)DHE shared secret, every transcript hash and every supported cipher suite, the handshake secrets, master secret, per-direction write keys, IVs and Finished keys are the values RFC 8446 sections 7.1, 7.3 and 4.4.4 define, with key and IV lengths and hash of the negotiated suite. The client and the server derive the same keys (a peer share that is not 32 bytes, or whose shared secret is all zero, is refused), and never the same key for the two directions by construction of the labels.",
  ["inputs"],"All 32-byte shared secrets, all transcript hashes, all three cipher suites, both roles.",
  "One recorded handshake trace for one suite is tested; suites with a different hash or key length and secrets with leading zero bytes are not reached.",
  ["net/key_schedule.rs","net/handshake/finished.rs","crypto/ciphersuite.rs","utils/bytes.rs"],
  [("HkdfLabel","net/key_schedule.rs: get_hkdf_expand_label"),("secrets","net/key_schedule.rs: KeySchedule::do_key_schedule"),("ECDHE","net/key_schedule.rs: KeySchedule::from_handshake"),("traffic keys","net/key_schedule.rs: WriteKeys::handshake_keys, application_keys_from_master_secret, Key::from_hkdf"),("finished","net/handshake/finished.rs: get_verify_data_for_finished")],
  ["KeySchedule, WriteKeys, get_verify_data_for_finished"],"read access to the derived keys")
p("P05","AES block encryption and decryption are FIPS-197 for every key and block",
  "For every 128-, 192- or 256-bit key and every 16-byte block, block encryption returns the FIPS-197 ciphertext and block decryption returns its inverse, and using one cipher object repeatedly gives the same result as a fresh one.",
  ["inputs","histories"],"All keys of the three lengths, all blocks, any sequence of uses of one object.",
  "One AES-128 vector is tested; AES-256, the 256-entry tables at every entry and the key expansion's extra substitution step are not.",
  ["crypto/aes/cipher.rs"],[("key expansion","crypto/aes/cipher.rs: AES::get_expanded_key"),("rounds","crypto/aes/cipher.rs: AES::encrypt, AES::decrypt"),("field arithmetic","crypto/aes/cipher.rs: AES::gmult, mix_columns"),("tables","crypto/aes/cipher.rs: SBOX, INV_SBOX")],["AES::init/encrypt/decrypt"],"private round functions")
p("P06","AES-GCM encryption is SP 800-38D GCM for every key, nonce, plaintext and AAD",
  "For both GCM suites, every key, every nonce, every plaintext and every additional data of any length, sealing returns the ciphertext and the 16-byte tag that NIST SP 800-38D defines (counter block increment modulo 2^32, GHASH over zero-padded AAD and ciphertext and their bit lengths).",
  ["inputs"],"All keys, 96-bit and other nonces, plaintexts and additional data of all lengths including empty and non-multiples of 16.",
  "A few NIST vectors with short inputs are tested; field multiplication is a 2^256 input space, and counter wrap, empty input and odd tail lengths are not sampled.",
  ["crypto/aes/gcm.rs","utils/bytes.rs"],[("GF(2^128) product","crypto/aes/gcm.rs: Gcm::gmult"),("CTR and GHASH","crypto/aes/gcm.rs: Gcm::gcm"),("sealing","crypto/aes/gcm.rs: Cipher::encrypt")],["Cipher::encrypt of Gcm"],"private field multiplication")
p("P07","ChaCha20 encrypts every byte with the RFC 8439 key stream",
  "For every 32-byte key, 12-byte nonce, initial block counter and plaintext of any length, byte i of the output is byte i of the input xor byte i mod 64 of the RFC 8439 block at counter + i/64 (counter modulo 2^32). No byte is left unencrypted, and keys or nonces of other lengths are refused for any non-empty input.",
  ["inputs"],"All keys, nonces, counters and plaintexts of every length, in particular multiples of 64.",
  "One 114-byte vector is tested; inputs whose length is a multiple of the block size, long inputs and counter wrap are not.",
  ["crypto/chacha20/cipher.rs"],[("block function","crypto/chacha20/cipher.rs: ChaCha20Block::init, qround, get_block"),("stream","crypto/chacha20/cipher.rs: ChaCha20::encrypt")],["ChaCha20::encrypt/decrypt"])
p("P08","Poly1305 and the ChaCha20-Poly1305 seal are RFC 8439 for every input",
  "The one-time authenticator returns the RFC 8439 tag for every 32-byte key and every message, the one-time key is the first 32 bytes of the block at counter zero, and sealing returns the ciphertext under counter one together with the tag over padded additional data, padded ciphertext and their little-endian 64-bit lengths.",
  ["inputs"],"All keys, nonces, messages and additional data of every length.",
  "Three RFC vectors are tested; accumulator values near the prime, tags with leading zero bytes, and lengths that are multiples of 16 need inputs a test cannot enumerate.",
  ["crypto/chacha20/poly1305.rs","utils/bytes.rs"],[("mac","crypto/chacha20/poly1305.rs: Poly1305::mac"),("one-time key","crypto/chacha20/poly1305.rs: Poly1305::key_gen"),("padding and lengths","crypto/chacha20/poly1305.rs: pad16, get_mac_data"),("sealing","crypto/chacha20/poly1305.rs: Cipher::encrypt")],["Poly1305::mac, Cipher::encrypt of Poly1305"])
p("P09","Opening a sealed message returns plaintext only if the tag is exactly right",
  "For every suite, key, nonce, additional data, ciphertext and received tag of any length, opening returns an error unless the tag equals, in all 16 bytes, the tag sealing would compute for that ciphertext and additional data; when it is equal it returns exactly the plaintext that was sealed. A bad tag is reported as a bad-record-MAC error and never panics.",
  ["inputs"],"All keys, nonces, additional data, ciphertexts and tags, including tags that are too short, too long, or differ in one bit.",
  "Tests open a few correctly sealed messages; that no other tag is accepted is a statement over all tags.",
  ["crypto/aes/gcm.rs","crypto/chacha20/poly1305.rs"],[("GCM open","crypto/aes/gcm.rs: Cipher::decrypt"),("ChaCha20-Poly1305 open","crypto/chacha20/poly1305.rs: Cipher::decrypt")],["Cipher::decrypt"])
p("P10","X25519 is the RFC 7748 function for every scalar and u-coordinate",
  "For every 32-byte scalar and every 32-byte u-coordinate the scalar multiplication returns the value of the RFC 7748 X25519 function: the scalar clamped, the top bit of u ignored, and the result fully reduced and encoded little-endian in 32 bytes. Hence two parties always agree on the same 32-byte shared secret, including when it has leading or trailing zero bytes.",
  ["inputs"],"All 2^256 scalars and all 2^256 encodings of u, including non-canonical ones and low-order points.",
  "Two vectors are tested; limb carries, final reduction near p and short integers occur with probability 2^-8 to 2^-250 and are never sampled.",
  ["crypto/ellipticcurve/math/curve25519.rs","crypto/ellipticcurve/math.rs","utils/bytes.rs","net/key_schedule.rs"],
  [("field arithmetic","crypto/ellipticcurve/math/curve25519.rs: fadd, fsub, fmul, finverse, carry25519"),("encoding","crypto/ellipticcurve/math/curve25519.rs: unpack25519, pack25519"),("ladder","crypto/ellipticcurve/math/curve25519.rs: scalarmult"),("integer glue","crypto/ellipticcurve/math.rs: multiply; utils/bytes.rs: ibig_to_32bytes")],
  ["curve25519::scalarmult","ellipticcurve::math::multiply on Curve25519"],"private field functions")
p("P11","P-256 point addition and scalar multiplication compute the group law",
  "For all curve points, including the point at infinity, a point added to itself and to its negation, addition returns the group sum, and multiplying a point by any integer n in 0..2^256 returns n times that point, with coordinates reduced modulo the field prime.",
  ["inputs"],"All pairs of points of secp256r1 (and infinity), all scalars.",
  "A handful of scalar multiples are tested; the exceptional cases of the Jacobian formulas appear for specific pairs of points only.",
  ["crypto/ellipticcurve/math.rs","crypto/ellipticcurve/math/jacobian.rs","crypto/ellipticcurve/point.rs","crypto/ellipticcurve/curve.rs"],
  [("doubling, addition","crypto/ellipticcurve/math/jacobian.rs: jacobian_double, jacobian_add"),("scalar multiplication","crypto/ellipticcurve/math/jacobian.rs: jacobian_multiply"),("inversion","crypto/ellipticcurve/math.rs: inv, rem_euclid"),("affine conversion","crypto/ellipticcurve/point.rs: JacobianPoint::to_point")],["math::add, math::multiply"])
p("P12","ECDSA accepts exactly the signatures the standard accepts, and signs verifiably",
  "For a public key that is a point of the curve, verification returns true exactly when r and s are both in 1..n-1 and the x-coordinate of u1*G + u2*Q, reduced modulo n, equals r, for the leftmost bits of the digest; out-of-range values, a sum at infinity or any other (key, digest, signature) triple are rejected without a crash. A signature produced by signing has r and s in 1..n-1 and verifies under the signer's public key for the signed digest.",
  ["inputs"],"All public keys, digests of at least 32 bytes, all pairs of integers (r, s), all private keys and nonces.",
  "One sign/verify round trip is tested; that nothing else verifies is a statement over all signatures, and range and infinity cases are never tried.",
  ["crypto/ellipticcurve/ecdsa.rs"],[("verification","crypto/ellipticcurve/ecdsa.rs: Ecdsa::verify"),("signing","crypto/ellipticcurve/ecdsa.rs: Ecdsa::sign")],["Ecdsa::sign, Ecdsa::verify"])
p("P13","ECDSA signature DER encoding and decoding are inverse and reject malformed input",
  "Encoding a pair (r, s) of integers in 0..2^256-1 yields the unique DER SEQUENCE of two non-negative minimal INTEGERs, decoding it returns the same pair and the number of bytes used, and decoding any other byte string either returns an error or a pair that really is encoded in it; it never crashes.",
  ["inputs"],"All pairs of integers up to 256 bits (short, top bit set, leading zero bytes) and all byte strings.",
  "No test covers this; values with leading zero bytes occur once in 256 signatures.",
  ["crypto/ellipticcurve/signature.rs","utils/bytes.rs"],[("decode","crypto/ellipticcurve/signature.rs: Signature::from_der"),("encode","crypto/ellipticcurve/signature.rs: Signature::to_der")],["Signature::to_der, Signature::from_der"])
p("P14","No two records are ever protected under the same key and nonce",
  "The nonce of the k-th record protected or opened with a traffic key (k counted from zero) is the key's IV xored with k as a left-zero-padded big-endian 64-bit number, and each record advances k by exactly one in its own direction only. Consequently nonces never repeat under one key, and a connection that would exhaust the counter stops instead of wrapping around.",
  ["histories","inputs"],"All IVs, all record counts up to the limit of the counter, any interleaving of the two directions.",
  "Tests never send a second record under one key, and wrap-around after billions of records cannot be reached by running.",
  ["net/key_schedule.rs","net/record.rs"],[("nonce","net/key_schedule.rs: Key::get_per_record_nonce"),("use","net/record.rs: RecordPayloadProtection::encrypt, decrypt")],["Key::get_per_record_nonce"],"record counter of a key",
  [("sequence counter","records protected so far under this key","net/key_schedule.rs: Key::sequence_number")])
p("P15","Record protection and its removal are inverse and authenticate the record",
  "A record sealed by one side is a TLSCiphertext of type application data whose length field is the plaintext length plus 17, whose header is the additional data and whose inner plaintext is content followed by the true content type; the other side, opening the records of that direction in order, gets back exactly that type and content, for any zero padding the peer added. Anything too short, all padding, or not authenticated by the peer's key in sequence is an error, never a crash and never data.",
  ["inputs","histories"],"All contents, types, padding lengths and record histories; both roles; handshake and application keys.",
  "Tests do not touch the record layer; the guarantee is over all ciphertexts an attacker may send.",
  ["net/record.rs"],[("sealing","net/record.rs: RecordPayloadProtection::encrypt, encrypt_handshake"),("opening","net/record.rs: RecordPayloadProtection::decrypt"),("key switch","net/record.rs: RecordPayloadProtection::generate_application_keys")],["RecordPayloadProtection"],"construct with chosen keys")
p("P16","Record and handshake framing parse exactly what was serialised, and nothing else",
  "Serialising a record of up to 65535 bytes or a handshake message below 2^24 bytes writes its type, (record) version and true length before its content, and parsing any bytes that begin with it returns that type and content and the number of bytes consumed. For every other byte string parsing returns an error: an unknown type, or a length field beyond the bytes present, never leads to a crash or to content that was not there.",
  ["inputs"],"All byte strings of any length, all contents up to the 16- and 24-bit length limits.",
  "No test covers framing; truncated and over-long lengths are an input space.",
  ["net/record.rs","net/handshake/mod.rs"],[("record","net/record.rs: Record::from_raw, as_bytes, RecordType::new"),("handshake","net/handshake/mod.rs: Handshake::from_raw, to_bytes, HandshakeType::new")],["Record::from_raw/as_bytes, Handshake::from_raw/to_bytes"])
p("P17","No peer-supplied hello or extension bytes can crash the endpoint",
  "Parsing a ClientHello, a ServerHello, a CertificateRequest or any of their extensions terminates and returns either a result or an error for every byte string, truncated or hostile, without panicking or reading outside the message.",
  ["inputs"],"All byte strings of every length given as hello, extension list or extension body.",
  "No test feeds malformed hellos; every truncation point and every inconsistent length is a separate input.",
  ["net/client/client_hello.rs","net/server/server_hello.rs","net/extensions/client.rs","net/extensions/server.rs","net/extensions/certificate_request.rs","net/extensions/key_share.rs","net/extensions/supported_versions.rs","net/extensions/signature_algorithm.rs","net/extensions/server_name.rs"],
  [("ClientHello","net/client/client_hello.rs: ClientHello::from_raw"),("ServerHello","net/server/server_hello.rs: ServerHello::from_raw"),("extension lists","net/extensions/*.rs: from_client_hello, from_server_hello, from_request"),("bodies","net/extensions/*.rs: server_parse, client_parse")],["ClientHello::from_raw, ServerHello::from_raw, *Extension::from_*"])
p("P18","Hello negotiation only ever selects what both sides offered",
  "The server answers a ClientHello only if the client offers TLS 1.3 (when it states versions), an X25519 key share and a supported cipher suite, and, when a server name is configured and the client sends one, exactly that name; its answer echoes the session id, selects a suite the client listed, and carries an X25519 share, and the shared secret is computed from the client's X25519 share, not from a share of another group. Hellos written by one side are read back by the other with the same random, session id, suites and the extensions it understands.",
  ["inputs"],"All ClientHellos: any order and choice of suites, versions, groups, shares and names.",
  "No test negotiates; order-dependent choices (several shares, several suites) need specific lists.",
  ["net/server/server_hello.rs","net/client/client_hello.rs","net/extensions/key_share.rs","crypto/ciphersuite.rs"],
  [("negotiation","net/server/server_hello.rs: ServerHello::from_client_hello"),("answer","net/server/server_hello.rs: ServerHello::as_bytes"),("client hello","net/client/client_hello.rs: ClientHello::as_bytes, from_raw"),("share choice","net/client/client_hello.rs: get_public_key_share")],["ServerHello::from_client_hello, as_bytes"])
p("P19","A client only completes a handshake with a server that proved its key",
  "The client reports a usable connection only after it has received, in this order, a ServerHello, a Certificate, a CertificateVerify whose signature by that certificate's key over the transcript so far is valid, and a Finished whose MAC over the transcript is right; a missing, repeated, reordered or invalid message ends the handshake with an error. No application data is accepted or sent before that.",
  ["histories","inputs"],"All sequences of records a server may send, in plaintext or encrypted, well-formed or not.",
  "No test runs a handshake; the guarantee is over all message sequences.",
  ["net/client/connection.rs","net/handshake/certificate.rs","net/handshake/finished.rs"],
  [("state machine","net/client/connection.rs: ClientHandshake::handle_handshake_record, handle_encrypted_record"),("certificate verify","net/client/connection.rs: handle_server_certificate_verify"),("finished","net/client/connection.rs: handle_server_finished")],["ClientConnection::connect"])
p("P20","A server requiring client certificates only completes with such a client",
  "When a client CA is configured, the server completes the handshake only if the client, in answer to its certificate request, presented a certificate signed by that CA and accepted by the custom check if one is set, proved possession of its key with a valid CertificateVerify over the transcript, and sent a correct Finished, in that order; without a client CA it completes only after a correct Finished. Otherwise the connection ends with an alert and an error, and application data before completion is refused.",
  ["histories","inputs"],"All sequences of records a client may send, with any certificates and signatures; all configurations.",
  "No test runs a handshake; skipping or reordering a message is an adversarial choice.",
  ["net/server/connection.rs","net/handshake/certificate.rs","net/handshake/finished.rs"],
  [("state machine","net/server/connection.rs: ServerHandshake::handle_handshake_record, handle_handshake_encrypted_record"),("client certificate","net/server/connection.rs: handle_client_certificate"),("proof of possession","net/server/connection.rs: handle_client_certificate_verify"),("finished","net/server/connection.rs: handle_client_finish")],["ServerConnection::accept"])
p("P21","Alert codes map one-to-one to errors and are sent at the right level",
  "Every alert code RFC 8446 defines and the library names is decoded to its own error and that error is encoded back to the same code, no error other than the close notification is ever sent as code 0, and every error except the closure alerts is sent at fatal level.",
  ["inputs"],"All 256 alert codes and all error kinds.",
  "No test covers alerts.",
  ["net/alert.rs","net/stream.rs"],[("code tables","net/alert.rs: TlsError::new, as_u8"),("level","net/alert.rs: AlertLevel::get_from_error"),("sending","net/stream.rs: TlsStream::write_alert")],["TlsError::new, as_u8, AlertLevel::get_from_error"])
p("P22","No certificate, DER, PEM or base64 bytes can crash the endpoint",
  "Parsing a certificate message, a DER certificate, its public key, a PEM body or a base64 text terminates and returns a result or an error for every input, however truncated, nested or malformed, without panicking; base64 decoding inverts encoding for every byte string and rejects characters outside the alphabet.",
  ["inputs"],"All byte strings and texts of every length.",
  "Two well-formed certificates and fourteen base64 strings are tested.",
  ["net/handshake/certificate.rs","utils/x509.rs","utils/der.rs","utils/base64.rs","utils/pem.rs"],
  [("certificate list","net/handshake/certificate.rs: Certificate::from_hello"),("DER","utils/der.rs: der_parse, get_len"),("X.509","utils/x509.rs: parse, X509::get_public_key"),("base64","utils/base64.rs: encode, decode")],["Certificate::from_hello, X509::from_raw, base64::{encode,decode}"])
p("P23","Certificate validity times mean what X.509 says, for every date",
  "A UTCTime string YYMMDDHHMMSSZ is accepted exactly when its fields are a real date and time, two-digit years below 50 mean 20YY and others 19YY, and its conversion to Unix time is the exact number of seconds since 1970 for every date (leap days included) with earlier dates clamped to zero. A certificate is within its validity period exactly when the current time lies between the two limits.",
  ["inputs"],"All thirteen-character strings; all 36525 dates and all times of day.",
  "The tests compare one date of one certificate; a leap-year error shows only in March to December of every fourth year.",
  ["utils/x509.rs"],[("parse","utils/x509.rs: UtcTime::from_utc_timestamp"),("convert","utils/x509.rs: UtcTime::get_unix_timestamp"),("check","utils/x509.rs: Validity::is_valid")],["UtcTime, Validity::is_valid"],"private parse function")
p("P24","A certificate is accepted as signed by another only if the signature verifies",
  "A certificate is reported as signed by an issuer only if the signature field, under the signature algorithm and hash it names and the issuer's public key, verifies over exactly the to-be-signed part of its encoding; unsupported algorithms and malformed signatures are errors, not acceptance. What stands outside the signed part changes none of the signed fields (names, validity, key, serial number).",
  ["inputs"],"All certificate pairs.",
  "No test covers it; every forged certificate is a separate input.",
  ["net/handshake/certificate.rs","utils/x509.rs"],[("chain check","net/handshake/certificate.rs: Certificate::has_signed"),("signed range","utils/x509.rs: parse (tbs size)")],["Certificate::has_signed"])
p("P25","The random generators return exactly what was asked for",
  "A request for n random bytes returns exactly n bytes, and a request for an integer of a to b bytes returns one that needs no more than b bytes, for every n and every range with a < b, and for the seeded generator the result depends only on the seed and the sequence of requests.",
  ["inputs","histories"],"All sizes and ranges, all seeds, both generators.",
  "One test draws a few numbers; the sizes the handshake uses are not tested.",
  ["rand/simplerng.rs","rand/urandom.rs"],[("bytes","rand/*.rs: RngCore::bytes"),("between","rand/*.rs: RngCore::between")],["RngCore::bytes, RngCore::between"])
p("P26","Application data arrives complete, in order and unaltered",
  "After a completed handshake, the bytes one side's reads return are exactly the bytes the other side wrote, in order, whatever the sizes of the writes and however the transport splits or merges the protected records; a connection that fails or is closed returns an error or end of data, never altered bytes.",
  ["schedules","inputs"],"All payloads, all write sizes, all segmentations of the byte stream.",
  "No test moves application data.",
  ["net/stream.rs","net/record.rs"],[("reading","net/stream.rs: TlsStream::tls_read"),("writing","net/stream.rs: TlsStream::tls_write")],["TlsStream::tls_read, tls_write"])
p("P27","Key log lines are in NSS format and match the connection's secrets",
  "Each handshake with key logging enabled appends exactly the four traffic-secret lines of the NSS key log format, with the label of the right secret and direction, the client random of this connection and the secret in lower-case hex of full length.",
  ["inputs"],"All client randoms and secrets (leading zero bytes and nibbles included).",
  "No test reads the key log.",
  ["utils/keylog.rs","utils/bytes.rs"],[("lines","utils/keylog.rs: KeyLog::append_*"),("hex","utils/bytes.rs: to_hex")],["KeyLog"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
for d in P:
    assert len(d["title"])<=80,(d["id"],len(d["title"]))
print(len(P))
