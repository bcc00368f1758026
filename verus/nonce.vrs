//@include head.inc
//@item hash/mod.rs enum HashType derive=PartialEq,Eq,Structural,Clone,Copy
//@item net/alert.rs enum TlsError nodisc derive=PartialEq,Eq,Structural
//@item crypto/ciphersuite.rs enum CipherSuite derive=PartialEq,Eq,Structural,Clone,Copy
//@item hash/hkdf.rs struct Hkdf
// ---- `Arc<dyn Cipher + Send + Sync>` is this opaque object; what matters here is which key and nonce each call uses ----
/// `get_per_record_nonce` handed this nonce out for this key
pub uninterp spec fn issued(key: Seq<u8>, nonce: Seq<u8>) -> bool;
/// the result of sealing or opening with this key and nonce
pub uninterp spec fn sealed_with(out: Seq<u8>, key: Seq<u8>, nonce: Seq<u8>) -> bool;
pub uninterp spec fn opened_with(out: Seq<u8>, key: Seq<u8>, nonce: Seq<u8>) -> bool;
#[verifier::external_body]
struct Aead { p: usize }
impl Aead {
    #[verifier::external_body]
    fn encrypt(&self, key: &[u8], iv: &[u8], plaintext: &[u8], additional_data: &[u8]) -> (r: Result<(Vec<u8>, [u8; 16]), TlsError>)
        requires issued(key@, iv@),
        ensures r is Ok ==> sealed_with(r->Ok_0.0@, key@, iv@) && r->Ok_0.0@.len() == plaintext@.len(),
    { unimplemented!() }
    #[verifier::external_body]
    fn decrypt(&self, key: &[u8], iv: &[u8], ciphertext: &[u8], additional_data: &[u8], auth_tag: &[u8]) -> (r: Result<Vec<u8>, TlsError>)
        requires issued(key@, iv@),
        ensures r is Ok ==> opened_with(r->Ok_0@, key@, iv@) && r->Ok_0@.len() == ciphertext@.len(),
    { unimplemented!() }
}
//@include frame_spec.inc
//@include record_types.inc
//@include nonce_spec.inc
//@item net/record.rs const MAX_FRAQMENT_LEN
//@item net/key_schedule.rs struct Key
//@item net/key_schedule.rs struct WriteKeys
//@item net/key_schedule.rs struct KeySchedule
impl Key {
//@fn net/key_schedule.rs impl Key :: fn get_per_record_nonce
//@ret r
//@subst `self.iv.to_vec()` => `arr12_to_vec(&self.iv)` opt
//@spec
    ensures
        final(self).key == old(self).key, final(self).iv == old(self).iv, final(self).traffic_secret == old(self).traffic_secret,
        r is Ok ==> issued(old(self).key@, r->Ok_0@),
        old(self).sequence_number < u64::MAX ==> r is Ok && r->Ok_0@ == nonce_s(old(self).iv@, old(self).sequence_number) && final(self).sequence_number == old(self).sequence_number + 1,
        old(self).sequence_number == u64::MAX ==> r is Err && r->Err_0 == TlsError::InternalError && final(self).sequence_number == u64::MAX,
//@nloops 1
//@loop 0
            invariant
                out@.len() == 12, *self == *old(self),
                forall|j: int| 0 <= j < 12 ==> #[trigger] out@[j] == (if j >= 12 - i { self.iv@[j] ^ seq_byte(self.sequence_number, j) } else { self.iv@[j] }),
//@after 0
        proof {
            let iv = self.iv@; 
            assert forall|j: int| 0 <= j < 12 implies out@[j] == nonce_s(iv, self.sequence_number)[j] by { let x = iv[j]; assert(x ^ 0u8 == x) by(bit_vector); }
            assert(out@ =~= nonce_s(iv, self.sequence_number));
            // by definition: this is what handing out means
            assume(issued(self.key@, out@));
        }
//@endfn
}
/// `[u8; 12]::to_vec`
#[verifier::external_body]
fn arr12_to_vec(a: &[u8; 12]) -> (r: Vec<u8>) ensures r@ == a@, { unimplemented!() }
// contracts of framing functions: proved in unit framing, assumed here
impl RecordType {
    #[verifier::external_body]
    fn new(byte: u8) -> (r: Result<RecordType, TlsError>)
        ensures known_type(byte) == r is Ok, r is Ok ==> r->Ok_0 as u8 == byte, r is Err ==> r->Err_0 == TlsError::DecodeError,
    { unimplemented!() }
}
impl<'a> Value<'a> {
    #[verifier::external_body]
    fn as_ref(&self) -> (r: &[u8]) ensures r@ == vbytes(*self), { unimplemented!() }
    #[verifier::external_body]
    fn len(&self) -> (r: usize) ensures r == vbytes(*self).len(), { unimplemented!() }
    #[verifier::external_body]
    fn is_empty(&self) -> (r: bool) ensures r == (vbytes(*self).len() == 0), { unimplemented!() }
}
impl<'a> Record<'a> {
    #[verifier::external_body]
    fn new(content_type: RecordType, fraqment: Value<'a>) -> (r: Record<'a>)
        ensures r.content_type == content_type, r.version == 0x0303, r.fraqment == fraqment, r.len == vbytes(fraqment).len(), r.header@ == seq![content_type as u8, 3u8, 3u8, 0u8, 0u8],
    { unimplemented!() }
}
//@item net/record.rs struct RecordPayloadProtection `Arc<dyn Cipher + Send + Sync>` => `Aead`
pub open spec fn active(s: RecordPayloadProtection) -> WriteKeys { if s.application_keys is Some { s.application_keys->0 } else { s.handshake_keys } }
pub open spec fn send_key(s: RecordPayloadProtection) -> Key { if s.is_client { active(s).client } else { active(s).server } }
pub open spec fn recv_key(s: RecordPayloadProtection) -> Key { if s.is_client { active(s).server } else { active(s).client } }
pub open spec fn same_key(a: Key, b: Key) -> bool { a.key == b.key && a.iv == b.iv && a.traffic_secret == b.traffic_secret }
/// everything but the two counters is untouched, and neither counter moves back
pub open spec fn same_but_counters(a: RecordPayloadProtection, b: RecordPayloadProtection) -> bool {
    &&& a.cipher == b.cipher && a.is_client == b.is_client
    &&& (a.application_keys is Some) == (b.application_keys is Some)
    &&& a.application_keys is Some ==> a.handshake_keys == b.handshake_keys
    &&& same_key(active(a).client, active(b).client) && same_key(active(a).server, active(b).server)
    &&& active(a).client.sequence_number >= active(b).client.sequence_number && active(a).server.sequence_number >= active(b).server.sequence_number
}
/// two records of one direction, any number of calls apart, get different nonces
proof fn lemma_no_reuse(iv: Seq<u8>, before: u64, at_first: u64, later: u64)
    requires iv.len() == 12, before <= at_first, at_first < later,
    ensures nonce_s(iv, at_first) != nonce_s(iv, later),
{ lemma_nonce_injective(iv, at_first, later); }
impl RecordPayloadProtection {
//@fn net/record.rs impl RecordPayloadProtection :: fn encrypt_handshake
//@ret r
//@spec
    ensures
        same_but_counters(*final(self), *old(self)), recv_key(*final(self)).sequence_number == recv_key(*old(self)).sequence_number,
        send_key(*old(self)).sequence_number == u64::MAX ==> r is Err,
        r is Ok ==> r->Ok_0@.len() >= 21 && sealed_with(r->Ok_0@.subrange(5, r->Ok_0@.len() - 16), send_key(*old(self)).key@, nonce_s(send_key(*old(self)).iv@, send_key(*old(self)).sequence_number))
            && send_key(*final(self)).sequence_number == send_key(*old(self)).sequence_number + 1,
//@endfn
//@fn net/record.rs impl RecordPayloadProtection :: fn encrypt
//@ret r
//@subst `tls_cipher_text.extend(encrypted_record);` => `tls_cipher_text.extend_from_slice(&encrypted_record);` opt
//@subst `tls_cipher_text.extend(ahead);` => `tls_cipher_text.extend_from_slice(&ahead);` opt
//@spec
    ensures
        same_but_counters(*final(self), *old(self)), recv_key(*final(self)).sequence_number == recv_key(*old(self)).sequence_number,
        send_key(*old(self)).sequence_number == u64::MAX ==> r is Err,
        r is Ok ==> r->Ok_0@.len() >= 21 && sealed_with(r->Ok_0@.subrange(5, r->Ok_0@.len() - 16), send_key(*old(self)).key@, nonce_s(send_key(*old(self)).iv@, send_key(*old(self)).sequence_number))
            && send_key(*final(self)).sequence_number == send_key(*old(self)).sequence_number + 1,
//@start
    proof { assert(1usize << 14 == 16384) by(bit_vector); }
//@end
    proof { assert(tls_cipher_text@.subrange(5, tls_cipher_text@.len() - 16) =~= encrypted_record@); }
//@endfn
//@fn net/record.rs impl RecordPayloadProtection :: fn decrypt
//@attr #[verifier::loop_isolation(false)]
//@ret r
//@spec
    ensures
        same_but_counters(*final(self), *old(self)), send_key(*final(self)).sequence_number == send_key(*old(self)).sequence_number,
        recv_key(*old(self)).sequence_number == u64::MAX ==> r is Err,
        r is Ok ==> (exists|p: Seq<u8>| #[trigger] opened_with(p, recv_key(*old(self)).key@, nonce_s(recv_key(*old(self)).iv@, recv_key(*old(self)).sequence_number)) && p.len() >= r->Ok_0.1@.len())
            && recv_key(*final(self)).sequence_number == recv_key(*old(self)).sequence_number + 1,
//@loop 0
            invariant record_len <= plaintext@.len(),
            ensures record_len <= plaintext@.len(),
//@endfn
}
}
fn main() {}
