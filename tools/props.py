"""What decides each property: Verus units, replay, assumptions."""
import json, os
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {}
for ln in open(os.path.join(VERIF, "properties.jsonl")):
    if ln.strip(): d = json.loads(ln); T[d["id"]] = d
# the obligations about the key log in the units of the connections
KL = r"kl_ok|kl_done|kl_lines|lines_s|first_random|seq!\[l\[0\]"
PROPS = {
 "P01": dict(verus=["sha256", "sha384"], budget=6,
    note="Every function from the rotations to the one-shot digest is proved equal to FIPS 180-4 for all messages below 2^53 bytes and all update/finalize histories; trusts Verus/Z3, the extraction, and the contracts assumed for a few std functions (listed in the evidence).",
    assumptions=["message length below 2^53 bytes (the bit count is kept in 64 bits)", "one SHA-384 block takes a 64-bit length where the standard has 128 bits: messages of 2^61 bytes and more are outside the statement"]),
 "P02": dict(verus=["hmac"], budget=5,
    note="Hmac::new, update, result are proved to return RFC 2104's value for every key, message and hash; the digest functions enter by the contract that P01 proves.",
    assumptions=["contracts of hash::sha256 and hash::sha384 (proved by check P01) are assumed here", "key and message below 2^52 bytes"]),
 "P03": dict(verus=["hkdf"], budget=5,
    note="Hkdf::extract, expand, from_prk are proved equal to RFC 5869 for every salt, key, info and length, with None exactly above 255 blocks; Hmac enters by the contract that P02 proves.",
    assumptions=["contract of Hmac (proved by check P02) is assumed here", "info below 2^44 bytes"]),
 "P05": dict(verus=["aes"], budget=6,
    note="Key expansion, both S-box tables, all round functions, encryption and decryption are proved equal to a FIPS-197 specification for every key and block, and decryption is proved to be its inverse.",
    assumptions=["the specification in verus/aes_spec.inc is the FIPS-197 cipher (also compared with an independent implementation in the concrete evaluation)"]),
 "P06": dict(verus=["gcm", "bytesint"], own={"gcm": r"gmult|fn gcm|fn encrypt", "bytesint": r"u128_to_bytes_be|to_u128_be$"}, budget=6,
    note="The field product and the whole GCM function are proved equal to an SP 800-38D specification for every key of 16 or 32 bytes, nonce, data and additional data; AES enters by the contract P05 proves.",
    assumptions=["contract of AES::init/encrypt (proved by check P05) is assumed here", "data, additional data and nonce below 2^56 bytes", "the specification in verus/gcm_spec.inc is SP 800-38D"]),
 "P07": dict(verus=["chacha20"], budget=5,
    note="Initial state, quarter round, block function and stream are proved equal to RFC 8439 for every key, nonce, counter and input of any length.",
    assumptions=["counter + number of blocks fits in usize"]),
 "P08": dict(verus=["poly1305", "bytesint", "bytesnum"], own={"poly1305": r"key_gen|fn mac|pad16|get_mac_data|fn encrypt", "bytesint": r"u64", "bytesnum": r"to_ibig_le|ibig_to_vec"}, budget=6,
    note="mac, key_gen, padding, mac data and sealing are proved equal to RFC 8439 for every input, over exact integers.",
    assumptions=["ibig::IBig arithmetic is exact integer arithmetic (dependency, trusted)", "contract of ChaCha20 (proved by check P07) is assumed here"]),
 "P09": dict(verus=["poly1305", "gcm"], own={"poly1305": r"fn decrypt", "gcm": r"fn gcm|fn decrypt"}, budget=6,
    note="Both decrypt functions are proved to return Ok exactly when the tag equals the tag sealing computes, then the plaintext that was sealed, and BadRecordMac otherwise, for all inputs.",
    assumptions=["contracts of AES (P05), ChaCha20 (P07) and the byte conversions (P06, P08) are assumed here"]),
 "P04": dict(verus=["key_schedule"], budget=6,
    note="HkdfLabel, the whole schedule, the write keys, IVs, Finished keys and verify data are proved equal to RFC 8446 7.1/7.3/4.4.4 for every transcript hash, shared secret and suite; HKDF, HMAC, the hashes and X25519 enter by the contracts of P01-P03 and P10.",
    assumptions=["contracts of Hkdf (P03), Hmac (P02), sha256/sha384 (P01), math::multiply on Curve25519 (P10) are assumed here", "`&dyn TranscriptHash` is replaced by an opaque object whose finalize() is the digest of everything fed (proved for both hashes by P01)"]),
 "P14": dict(verus=["nonce"], budget=6,
    note="get_per_record_nonce is proved to return IV xor counter and advance the counter by one or fail at the end of its range; encrypt and decrypt are proved to use only nonces it issues, of their own direction, once per record; lemma: different counters give different nonces.",
    assumptions=["`Arc<dyn Cipher>` is replaced by an opaque object that may only be called with a nonce get_per_record_nonce issued", "that two different keys are different is the key schedule's (P04) business: P14 speaks of one key"]),
 "P15": dict(verus=["record"], own={"record": r"RecordPayloadProtection"}, budget=6,
    note="encrypt, encrypt_handshake, decrypt, new and generate_application_keys are proved against a specification of TLSCiphertext/TLSInnerPlaintext for every content, type, padding and history of counters; lemma: what one side seals the other opens to the same type and content.",
    assumptions=["the AEAD (P06, P08, P09), key derivation (P04), framing (P16) and nonce (P14) contracts are assumed here", "that nobody without the key finds another ciphertext with a correct tag is the AEAD's cryptographic strength, not provable here"]),
 "P16": dict(verus=["framing"], budget=5,
    note="All framing functions are proved: serialisation gives type, version and length before content, parsing accepts exactly the byte strings that begin with a complete record/message of a known type and returns exactly its parts.",
    assumptions=["serialisation is stated for contents up to 65535 bytes (records) and below 2^24 bytes (handshake messages), the most the length fields can say"]),
 "P17": dict(verus=["hello"], own={"hello": r"panic:."}, budget=6,
    note="Every parser of ClientHello, ServerHello, CertificateRequest and their extensions is proved free of panics (bounds, overflow, unwrap, unreachable) and terminating for every byte string.",
    assumptions=["String::from_utf8 returns a result for every byte string (std, trusted)", "logging statements are dropped by the extraction"]),
 "P13": dict(verus=["sig", "der", "bytesint"], own={"sig": r".", "der": r".", "bytesint": r"to_u128_be_fill"}, budget=6,
    note="to_der, from_der, strip_leading_zeros and the DER element reader are proved against an X.690 specification for every pair of numbers below 2^256 and every byte string; lemma: what to_der writes (and anything behind it) from_der reads back as the same pair and length.",
    assumptions=["ibig::IBig arithmetic is exact integer arithmetic (dependency, trusted)", "input below 2^60 bytes"]),
 "P10": dict(verus=["x25519", "bytesnum"], own={"x25519": r".", "bytesnum": r"ibig_to_32bytes|to_ibig_be"}, budget=6,
    note="Every function of curve25519.rs (unpacking, carry, field addition, subtraction, product, inverse, conditional swap, packing, the ladder) and math::multiply on Curve25519 are proved equal to RFC 7748's X25519 for every 32-byte scalar and u-coordinate, machine arithmetic included.",
    assumptions=["ibig::IBig arithmetic is exact integer arithmetic (dependency, trusted)", "`out.copy_from_slice(&product[..16])` is replaced by a loop that is proved to do that", "that X25519(a, X25519(b, 9)) = X25519(b, X25519(a, 9)) is a theorem about the RFC's function, not about this code, and is not proved here"]),
 "P21": dict(verus=["alerts", "conn_alert"], own={"alerts": r".", "conn_alert": r"."}, budget=5,
    note="TlsError::new, as_u8, AlertLevel::get_from_error and TlsStream::write_alert are proved against the RFC's code table for every code and error; do_handshake_with_error of both sides is proved to send the alert of every error that is one of the RFC's, and none for the others; lemma: the table is one-to-one.",
    assumptions=["the socket is a stand-in that records what is written", "record protection and framing enter by the contracts of P15 and P16", "TlsError::GotAlert carries the peer's code and is not one of the RFC's errors"]),
 "P25": dict(verus=["rand", "bytesnum"], own={"rand": r".", "bytesnum": r"ibig_to_32bytes"}, budget=5,
    note="bytes, between, next of all three generators are proved: the number of bytes, the range of the number, and for the seeded ones that state and result are a function of seed and requests.",
    assumptions=["/dev/urandom yields 100 bytes of unknown content (read_from_urandom is trusted)", "u32::wrapping_pow is the power modulo 2^32 (std, trusted)", "ibig::IBig arithmetic is exact integer arithmetic (dependency, trusted)", "seeds are not negative; requests below 2^60 bytes"]),
 "P23": dict(verus=["x509time"], budget=5,
    note="UtcTime::from_utc_timestamp, get_unix_timestamp and Validity::is_valid are proved against a calendar specification (days counted year by year, leap years by the Gregorian rule) for every string and every date.",
    assumptions=["a `&str` is taken as its UTF-8 bytes, slicing only at character boundaries (trusted stand-in)", "the system clock is not before 1970 (stand-in returning an arbitrary time)"]),
 "P22": dict(verus=["der", "x509", "cert", "base64", "pem", "sig", "x509time", "bytesnum", "bytesint"], own={"der": r"panic:.", "x509": r"panic:.", "cert": r"panic:from_raw_x509|from_hello|get_public_key", "base64": r".", "pem": r"panic:.", "sig": r"panic:from_der", "x509time": r"panic:from_utc_timestamp|str_to_u|is_leap_year", "bytesnum": r"panic:to_ibig_be", "bytesint": r"panic:to_u128_be_fill|to_u16"}, budget=5,
    note="The DER reader, the recursive certificate parser (termination included), the certificate message, the public key, the reader of PEM files and base64 are proved free of panics for every input; base64 decoding is proved to invert encoding and to accept nothing outside the alphabet.",
    assumptions=["`String`/`HashMap` values are opaque stand-ins, string literals are numbers (a different one for each literal)", "a `&str` is its characters and its UTF-8 length", "input below 2^60 bytes", "a PEM file is shorter than 2^60 bytes; splitting a text at newlines gives lines that together are no longer than it, str::get gives None off a character boundary (std, trusted)"]),
 "P24": dict(verus=["x509", "cert", "der"], own={"x509": r".", "cert": r"has_signed|get_public_key|from_raw_x509|as_slice|impl Point :: fn new|impl PublicKey :: fn new", "der": r"."}, budget=5,
    note="X509::from_raw is proved to keep as signed data exactly the second element of the certificate, to take algorithm and signature only from behind it and to change nothing of the signed part there; has_signed is proved to accept exactly when the issuer's P-256 key, the signature, ecdsaWithSHA256 and the signed data verify.",
    assumptions=["Ecdsa::verify enters by the contract of P12, sha256 by that of P01, Signature::from_der by that of P13", "`String` values are opaque, string literals are numbers"]),
 "P11": dict(verus=["ecc"], lean=True, budget=6,
    note="rem_euclid, the extended-Euclid inverse, Jacobian doubling, addition and multiplication, conversion to and from affine coordinates, math::add/multiply on secp256r1 and Curve::contains are proved equal to the affine group law for every scalar and every pair of points of the curve, infinity, equal and opposite points included.",
    assumptions=["ibig::IBig arithmetic is exact integer arithmetic (dependency, trusted)", "the four facts about P-256 the Verus proof uses (p and n are prime, the chord-and-tangent sum of two points is a point, that sum is associative, every point has order n) are proved in Lean 4 over Mathlib in the same run (lean/P256.lean); the eight definitions they are about are transcribed by hand from verus/ecc_spec.inc", "the point at infinity is represented as (0, 0), which is not on the curve"]),
 "P12": dict(verus=["ecdsa"], budget=8,
    note="Ecdsa::verify is proved to return true exactly for the signatures the standard's definition accepts (range, point on the curve, infinity, leftmost bits), for every key, signature and digest; Ecdsa::sign is proved, for every private key and every nonce, to return a signature in range that this definition accepts under the signer's public key.",
    assumptions=["contracts of math::inv, rem_euclid, multiply, add, Curve::contains (proved by check P11) and of the byte conversions (P08) are assumed here", "ibig::IBig arithmetic is exact integer arithmetic (dependency, trusted)", "the four facts about P-256 that check P11 proves in Lean", "coordinates of a public key are not negative (they are decoded from bytes)", "signing terminates with probability one only: termination of its retry loop is not proved"]),
 "P26": dict(verus=["stream"], budget=8,
    note="TlsStream::tls_write, tls_read, read_record, write_record, flush, tcp_read and tcp_write are proved: what goes out is the records the written bytes are cut into, sealed in order, and what reads return, with what is kept back, is exactly the application data of the whole records consumed, each opened with the next counter, for every buffer size and segmentation; lemmas: what one side writes the other is given, writes follow one another, and at any moment what was read is a prefix of what was written.",
    assumptions=["the socket is a stand-in that knows what was written to and read from it", "record protection and framing enter by the contracts that P15 and P16 prove", "slice::chunks, Vec::drain, Vec::append and mem::replace do what their documentation says (std, trusted)", "that nobody without the key makes a record with a correct tag is the AEAD's cryptographic strength", "that reading ends is up to the peer: termination of the reading loops is not proved"]),
 "P27": dict(verus=["keylog", "client_conn", "server_conn"], own={"client_conn": "text:" + KL, "server_conn": "text:" + KL}, budget=8,
    note="to_hex and every function of KeyLog are proved: for every client random and secret the file is appended with exactly the server's and the client's line of the right label in NSS format; lemma: the hexadecimal text is of full length and one-to-one. Every function of both handshakes is proved to keep the log at exactly the lines due: none without a configured file, those of the handshake secrets of the connection's key schedule under the random of its ClientHello, and those of its application secrets once the handshake is done.",
    assumptions=["the file is a stand-in: opened in append mode and not truncated, what is written is added to its end", "`format!(\"{:02x}\")` writes two lower-case hexadecimal digits, `+=` on String appends (std, trusted)", "a failing write is reported on the console and adds nothing", "in both handshakes KeyLog is a stand-in that keeps the list of what was appended (its functions are proved in unit keylog); taken by mutable reference there, so that the list can grow", "the other functions the handshakes call enter by the contracts P19 and P20 list"]),
 "P18": dict(verus=["negotiate", "hellowire"], own={"negotiate": r".", "hellowire": r"."}, budget=8,
    note="ServerHello::from_client_hello is proved to answer only when every extension the client sent is agreeable (TLS 1.3 among the versions, the configured name exactly) and one carries an X25519 share; the answer has a suite the client listed, its session id, and the X25519 share of the key that is handed on; get_public_key_share of the client's hello returns an X25519 share of it. All writers and readers of the hellos and their extensions are proved against one wire specification, exactly (a reader returns precisely what the specification reads, and fails otherwise); lemmas: what one side writes the other reads back with the same random, session id, suites and extensions, shares turned around as they are kept.",
    assumptions=["the RNG enters by the contract of P25, X25519 by P10, the number/byte conversions by P10 and P13, the schedule by P04", "`String`/`&str` are their UTF-8 bytes (trusted stand-in)", "`Box<&dyn Extension>` whose method is then called is replaced by the method of the variant", "read-back is stated for what the code makes: one X25519 share of 32 bytes, at most 64 algorithms and groups, names that are UTF-8 and shorter than 65520 bytes", "the signature algorithms of a ClientHello are not read by the code (ExtensionType::new does not know them)"]),
"P19": dict(verus=["client_conn", "cert"], own={"client_conn": "!text:" + KL, "cert": r"is_certificate_valid|_for_handshake"}, budget=30,
    note="Every function of the client's handshake, from connect to the handlers of each message, is proved against a transcript invariant: connect returns a connection only when the transcript it keeps is ClientHello, ServerHello record, EncryptedExtensions, at most one CertificateRequest, Certificate, CertificateVerify (ecdsa_secp256r1_sha256, exact length, valid for the first certificate over the transcript so far with the server's label), Finished (right MAC over the transcript so far), in this order, each fed whole, and the application keys are those of exactly that transcript; Certificate::is_certificate_valid is proved to accept exactly the signatures by the certificate's key over the RFC's content; nothing is written as application data and no plaintext is kept before that.",
    assumptions=["record protection, framing, key schedule, certificates, signatures and the stream enter by the contracts that P04, P09, P12, P13, P15, P16, P22 to P26 prove", "the private key of a configured client certificate is a P-256 key", "Box<dyn TranscriptHash> and Arc<dyn Cipher> are opaque objects with the contracts of P01 and P06 to P09", "the RNG is a stand-in; what the ClientHello says besides its random is P18's", "that nobody without the key makes a valid signature, MAC or tag is the primitives' cryptographic strength", "termination of the handshake loop is up to the peer"]),
 "P20": dict(verus=["server_conn", "conn_alert", "cert"], own={"server_conn": "!text:" + KL, "conn_alert": r"ServerHandshake", "cert": r"is_certificate_valid"}, budget=30,
    note="Every function of the server's handshake, from accept to the handlers of each message, is proved against a transcript invariant: accept returns a connection only when, with a client CA configured, the client's Certificate answered the request's context, is signed by the CA, is in its validity and is taken by the custom check, its CertificateVerify is valid for that certificate over the transcript so far with the client's label, and the last record taken in holds a Finished with the right MAC over all of that; without a client CA, a right Finished directly after the server's flight; the application keys are those of the transcript up to the server's Finished. do_handshake_with_error of both sides is proved to end every failure with its alert and an error.",
    assumptions=["record protection, framing, key schedule, certificates, signatures and the stream enter by the contracts that P04, P09, P12, P13, P15, P16, P22 to P26 prove", "the custom check is an opaque function of the certificate", "Box<dyn TranscriptHash>, Arc<dyn Cipher>, the RNG and the TcpListener are stand-ins", "the configured certificate is shorter than 2^20 bytes and its private key is a P-256 key", "the derived order of TlsError goes by the declared discriminants (std)", "termination of the handshake loop is up to the peer"]),
}
PROPS = dict(sorted(PROPS.items()))
for k, v in PROPS.items(): v["title"] = T[k]["title"]
NA = {}
HOOK_COMMITS = []
