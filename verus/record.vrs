//@include head.inc
//@item hash/mod.rs enum HashType derive=PartialEq,Eq,Structural,Clone,Copy
//@item net/alert.rs enum TlsError nodisc derive=PartialEq,Eq,Structural
//@item crypto/ciphersuite.rs enum CipherSuite derive=PartialEq,Eq,Structural,Clone,Copy
//@include hash_contract.inc
//@include hmac_spec.inc
//@item hash/hkdf.rs struct Hkdf
//@include hkdf_spec.inc
//@include tshash.inc
//@include ks_spec0.inc
//@include aead_contract.inc
//@include frame_spec.inc
//@include record_types.inc
//@include nonce_spec.inc
//@item net/record.rs const MAX_FRAQMENT_LEN
//@item net/key_schedule.rs struct Key
//@item net/key_schedule.rs struct WriteKeys
//@item net/key_schedule.rs struct KeySchedule
impl Key {
//@fn net/key_schedule.rs impl Key :: fn get_per_record_nonce
//@ret r
//@subst `self.iv.to_vec()` => `arr12_to_vec(&self.iv)` opt
//@spec
    ensures
        final(self).key == old(self).key, final(self).iv == old(self).iv, final(self).traffic_secret == old(self).traffic_secret,
        old(self).sequence_number < u64::MAX ==> r is Ok && r->Ok_0@ == nonce_s(old(self).iv@, old(self).sequence_number) && final(self).sequence_number == old(self).sequence_number + 1,
        old(self).sequence_number == u64::MAX ==> r is Err && r->Err_0 == TlsError::InternalError && final(self).sequence_number == u64::MAX,
//@nloops 1
//@loop 0
            invariant
                out@.len() == 12, *self == *old(self),
                forall|j: int| 0 <= j < 12 ==> #[trigger] out@[j] == (if j >= 12 - i { self.iv@[j] ^ seq_byte(self.sequence_number, j) } else { self.iv@[j] }),
//@after 0
        proof {
            let iv = self.iv@; 
            assert forall|j: int| 0 <= j < 12 implies out@[j] == nonce_s(iv, self.sequence_number)[j] by { let x = iv[j]; assert(x ^ 0u8 == x) by(bit_vector); }
            assert(out@ =~= nonce_s(iv, self.sequence_number));
        }
//@endfn
}
/// `[u8; 12]::to_vec`
#[verifier::external_body]
fn arr12_to_vec(a: &[u8; 12]) -> (r: Vec<u8>) ensures r@ == a@, { unimplemented!() }
// contracts of framing functions: proved in unit framing, assumed here
impl RecordType {
    #[verifier::external_body]
    fn new(byte: u8) -> (r: Result<RecordType, TlsError>)
        ensures known_type(byte) == r is Ok, r is Ok ==> r->Ok_0 as u8 == byte, r is Err ==> r->Err_0 == TlsError::DecodeError,
    { unimplemented!() }
}
impl<'a> Value<'a> {
    #[verifier::external_body]
    fn as_ref(&self) -> (r: &[u8]) ensures r@ == vbytes(*self), { unimplemented!() }
    #[verifier::external_body]
    fn len(&self) -> (r: usize) ensures r == vbytes(*self).len(), { unimplemented!() }
    #[verifier::external_body]
    fn is_empty(&self) -> (r: bool) ensures r == (vbytes(*self).len() == 0), { unimplemented!() }
}
impl<'a> Record<'a> {
    #[verifier::external_body]
    fn new(content_type: RecordType, fraqment: Value<'a>) -> (r: Record<'a>)
        ensures r.content_type == content_type, r.version == 0x0303, r.fraqment == fraqment, r.len == vbytes(fraqment).len(), r.header@ == seq![content_type as u8, 3u8, 3u8, 0u8, 0u8],
    { unimplemented!() }
}
impl WriteKeys {
    // proved in unit key_schedule
    #[verifier::external_body]
    fn handshake_keys(key_schedule: &KeySchedule, cs: CipherSuite) -> (r: Option<Self>)
        requires key_schedule.server_handshake_traffic_secret.pseudo_random_key@.len() < MAXKEY(), key_schedule.client_handshake_traffic_secret.pseudo_random_key@.len() < MAXKEY(),
        ensures r is Some,
            fresh_key(r->0.server, key_schedule.server_handshake_traffic_secret.hash, key_schedule.server_handshake_traffic_secret.pseudo_random_key@, suite_key_len(cs)),
            fresh_key(r->0.client, key_schedule.client_handshake_traffic_secret.hash, key_schedule.client_handshake_traffic_secret.pseudo_random_key@, suite_key_len(cs)),
    { unimplemented!() }
    #[verifier::external_body]
    fn application_keys_from_master_secret(hkdf_master_secret: &Hkdf, handshake_hash: &[u8], cs: CipherSuite) -> (r: Option<Self>)
        requires hkdf_master_secret.pseudo_random_key@.len() < MAXKEY(), handshake_hash@.len() == hlen(hkdf_master_secret.hash),
        ensures r is Some,
            fresh_key(r->0.client, hkdf_master_secret.hash, derive_secret(hkdf_master_secret.hash, hkdf_master_secret.pseudo_random_key@, {{B:c ap traffic}}, handshake_hash@), suite_key_len(cs)),
            fresh_key(r->0.server, hkdf_master_secret.hash, derive_secret(hkdf_master_secret.hash, hkdf_master_secret.pseudo_random_key@, {{B:s ap traffic}}, handshake_hash@), suite_key_len(cs)),
    { unimplemented!() }
}
//@include protect_spec.inc
impl RecordPayloadProtection {
//@fn net/record.rs impl RecordPayloadProtection :: fn new
//@ret r
//@subst `Arc<dyn Cipher + Send + Sync>` => `Aead`
//@spec
    requires ks_ok(key_schedule),
    ensures
        r is Some, wf(r->0), r->0.application_keys is None, r->0.is_client == is_client, r->0.key_schedule == key_schedule, r->0.cipher == cipher,
        fresh_key(r->0.handshake_keys.server, key_schedule.server_handshake_traffic_secret.hash, key_schedule.server_handshake_traffic_secret.pseudo_random_key@, suite_key_len(cipher.suite())),
        fresh_key(r->0.handshake_keys.client, key_schedule.client_handshake_traffic_secret.hash, key_schedule.client_handshake_traffic_secret.pseudo_random_key@, suite_key_len(cipher.suite())),
//@endfn
//@fn net/record.rs impl RecordPayloadProtection :: fn generate_application_keys
//@ret r
//@subst `tshash: &dyn TranscriptHash` => `tshash: &TsHash`
//@spec
    requires wf(*old(self)), ks_ok(old(self).key_schedule), old(self).key_schedule.hkdf_master_secret.hash == tshash.typ(),
    ensures
        r is Ok, wf(*final(self)), final(self).handshake_keys == old(self).handshake_keys, final(self).key_schedule == old(self).key_schedule, final(self).cipher == old(self).cipher, final(self).is_client == old(self).is_client,
        final(self).application_keys is Some,
        fresh_key(final(self).application_keys->0.client, old(self).key_schedule.hkdf_master_secret.hash, derive_secret(old(self).key_schedule.hkdf_master_secret.hash, old(self).key_schedule.hkdf_master_secret.pseudo_random_key@, {{B:c ap traffic}}, hash_s(tshash.typ(), tshash.fed())), suite_key_len(old(self).cipher.suite())),
        fresh_key(final(self).application_keys->0.server, old(self).key_schedule.hkdf_master_secret.hash, derive_secret(old(self).key_schedule.hkdf_master_secret.hash, old(self).key_schedule.hkdf_master_secret.pseudo_random_key@, {{B:s ap traffic}}, hash_s(tshash.typ(), tshash.fed())), suite_key_len(old(self).cipher.suite())),
//@endfn
//@fn net/record.rs impl RecordPayloadProtection :: fn encrypt_handshake
//@ret r
//@spec
    requires wf(*old(self)),
    ensures
        wf(*final(self)), same_but_counters(*final(self), *old(self)), recv_key(*final(self)) == recv_key(*old(self)),
        (r is Ok) == (buf@.len() <= 16384 && send_key(*old(self)).sequence_number < u64::MAX),
        r is Ok ==> r->Ok_0@ == sealed_s(old(self).cipher.suite(), send_key(*old(self)), send_key(*old(self)).sequence_number, 22, buf@) && send_key(*final(self)).sequence_number == send_key(*old(self)).sequence_number + 1,
        r is Err ==> *final(self) == *old(self) && r->Err_0 == TlsError::InternalError,
//@endfn
//@fn net/record.rs impl RecordPayloadProtection :: fn encrypt
//@ret r
//@subst `tls_cipher_text.extend(encrypted_record);` => `tls_cipher_text.extend_from_slice(&encrypted_record);` opt
//@subst `tls_cipher_text.extend(ahead);` => `tls_cipher_text.extend_from_slice(&ahead);` opt
//@spec
    requires wf(*old(self)),
    ensures
        wf(*final(self)), same_but_counters(*final(self), *old(self)), recv_key(*final(self)) == recv_key(*old(self)),
        (r is Ok) == (vbytes(record.fraqment).len() <= 16384 && send_key(*old(self)).sequence_number < u64::MAX),
        r is Ok ==> r->Ok_0@ == sealed_s(old(self).cipher.suite(), send_key(*old(self)), send_key(*old(self)).sequence_number, record.content_type as u8, vbytes(record.fraqment)) && send_key(*final(self)).sequence_number == send_key(*old(self)).sequence_number + 1,
        r is Err ==> *final(self) == *old(self) && r->Err_0 == TlsError::InternalError,
//@start
    proof {
        assert(1usize << 14 == 16384) by(bit_vector);
        assert forall|l: usize| #[trigger] (l >> 8) == l / 256 && l as u8 == (l % 256) as u8 by { assert(l >> 8 == l / 256) by(bit_vector); assert(l as u8 == (l % 256) as u8) by(bit_vector); }
    }
//@before `let (encrypted_record, ahead) =` opt
    proof {
        assert(tls_cipher_text@ =~= header_s(vbytes(record.fraqment).len() as int + 17));
        assert(inner_plaintext@ =~= vbytes(record.fraqment).push(record.content_type as u8));
    }
//@end
    proof { assert(tls_cipher_text@ =~= sealed_s(old(self).cipher.suite(), send_key(*old(self)), send_key(*old(self)).sequence_number, record.content_type as u8, vbytes(record.fraqment))); }
//@endfn
//@fn net/record.rs impl RecordPayloadProtection :: fn decrypt
//@attr #[verifier::loop_isolation(false)]
//@ret r
//@spec
    requires wf(*old(self)),
    ensures
        wf(*final(self)), same_but_counters(*final(self), *old(self)), send_key(*final(self)) == send_key(*old(self)),
        // nothing is opened without the right key, counter, header and tag
        r is Ok ==> ({
            let k = recv_key(*old(self)); let f = vbytes(record.fraqment); let cs = old(self).cipher.suite(); let n = nonce_s(k.iv@, k.sequence_number);
            f.len() >= 17 && k.sequence_number < u64::MAX && tag_of(f) == aead_tag(cs, k.key@, n, ciphertext_of(f), record.header@)
            && inner_s(open_pt(cs, k.key@, n, ciphertext_of(f), record.header@)) == Some((r->Ok_0.0 as u8, r->Ok_0.1@)) && r->Ok_0.0 != RecordType::Invalid
            && recv_key(*final(self)).sequence_number == k.sequence_number + 1
        }),
        // and everything that is authentic and holds a known type is opened
        ({
            let k = recv_key(*old(self)); let f = vbytes(record.fraqment); let cs = old(self).cipher.suite(); let n = nonce_s(k.iv@, k.sequence_number);
            f.len() >= 17 && k.sequence_number < u64::MAX && tag_of(f) == aead_tag(cs, k.key@, n, ciphertext_of(f), record.header@)
            && inner_s(open_pt(cs, k.key@, n, ciphertext_of(f), record.header@)) is Some && known_type((inner_s(open_pt(cs, k.key@, n, ciphertext_of(f), record.header@))->0).0) ==> r is Ok
        }),
//@loop 0
            invariant
                content_type == RecordType::Invalid, record_len == 0,
                forall|j: int| plaintext@.len() - i__k <= j < plaintext@.len() ==> plaintext@[j] == 0,
            ensures
                content_type == RecordType::Invalid ==> forall|j: int| 0 <= j < plaintext@.len() ==> plaintext@[j] == 0,
                content_type != RecordType::Invalid ==> record_len < plaintext@.len() && plaintext@[record_len as int] != 0 && content_type as u8 == plaintext@[record_len as int] && forall|j: int| record_len < j < plaintext@.len() ==> plaintext@[j] == 0,
//@in 0 start
            proof { if plaintext@[plaintext@.len() - 1 - i__k] != 0 { lemma_inner(plaintext@, plaintext@.len() - 1 - i__k); } }
//@after 0
        proof {
            if content_type == RecordType::Invalid { lemma_inner_none(plaintext@); } else { lemma_inner(plaintext@, record_len as int); }
        }
//@endfn
}
}
fn main() {}
