//@include head.inc
//@include ibig.inc
//@include bytes_spec.inc
//@include bytes_contract.inc
//@item hash/mod.rs enum HashType derive=PartialEq,Eq,Structural,Clone,Copy
//@include hash_contract.inc
//@include hmac_spec.inc
//@include hmac_contract.inc
//@include hkdf_spec.inc
//@include hkdf_contract.inc
//@item net/alert.rs enum TlsError nodisc derive=PartialEq,Eq,Structural
//@item crypto/ciphersuite.rs enum CipherSuite derive=PartialEq,Eq,Structural,Clone,Copy
//@item net/extensions/named_groups.rs enum NamedGroup derive=PartialEq,Eq,Structural,Clone,Copy
//@item net/extensions/key_share.rs struct KeyShareEntry
//@item crypto/ellipticcurve/curve.rs enum Equation
//@item crypto/ellipticcurve/point.rs struct Point
//@item crypto/ellipticcurve/curve.rs struct Curve
//@item crypto/ellipticcurve/privatekey.rs struct PrivateKey
//@include tshash.inc
//@include ks_spec.inc
//@include x25519_contract.inc
/// what the key schedule derives
pub open spec fn schedule_s(k: KeySchedule, h: HashType, ecdhe: Seq<u8>, th: Seq<u8>) -> bool {
    &&& k.client_handshake_traffic_secret.hash == h
    &&& k.server_handshake_traffic_secret.hash == h
    &&& k.hkdf_master_secret.hash == h
    &&& k.client_handshake_traffic_secret.pseudo_random_key@ == client_hs_secret(h, ecdhe, th)
    &&& k.server_handshake_traffic_secret.pseudo_random_key@ == server_hs_secret(h, ecdhe, th)
    &&& k.hkdf_master_secret.pseudo_random_key@ == master_secret(h, ecdhe)
    &&& k.client_handshake_traffic_secret.pseudo_random_key@.len() == hlen(h)
    &&& k.server_handshake_traffic_secret.pseudo_random_key@.len() == hlen(h)
    &&& k.hkdf_master_secret.pseudo_random_key@.len() == hlen(h)
}
#[verifier::external_body]
fn vec_to_arr12(v: Vec<u8>) -> (r: [u8; 12]) requires v@.len() == 12, ensures r@ == v@, { unimplemented!() }
/// `a.iter().all(|b| *b == 0)`, written out
fn vx_all_zero(a: &[u8]) -> (r: bool) ensures r == (a@ == zeros(a@.len() as int)),
{
    for i in 0..a.len()
        invariant forall|j: int| 0 <= j < i ==> a@[j] == 0,
    { if a[i] != 0 { assert(a@[i as int] != zeros(a@.len() as int)[i as int]); return false; } }
    assert(a@ =~= zeros(a@.len() as int)); true
}
/// the labels of the two directions differ, whatever the context: no secret is derived twice
proof fn lemma_directions_differ(c: Seq<u8>, l: int)
    ensures hkdf_label({{B:c hs traffic}}, c, l) != hkdf_label({{B:s hs traffic}}, c, l),
        hkdf_label({{B:c ap traffic}}, c, l) != hkdf_label({{B:s ap traffic}}, c, l),
        hkdf_label({{B:key}}, c, l) != hkdf_label({{B:iv}}, c, l),
{
    assert(hkdf_label({{B:c hs traffic}}, c, l)[9] == 99u8); assert(hkdf_label({{B:s hs traffic}}, c, l)[9] == 115u8);
    assert(hkdf_label({{B:c ap traffic}}, c, l)[9] == 99u8); assert(hkdf_label({{B:s ap traffic}}, c, l)[9] == 115u8);
    assert(hkdf_label({{B:key}}, c, l)[2] == 9u8); assert(hkdf_label({{B:iv}}, c, l)[2] == 8u8);
}
//@fn hash/mod.rs fn sha_x
//@ret r
//@spec
    requires data@.len() < 0x20_0000_0000_0000,
    ensures r@ == hash_s(typ, data@), r@.len() == hlen(typ),
//@endfn
//@fn net/key_schedule.rs fn get_hkdf_expand_label
//@ret r
//@spec
    requires label@.len() <= 249, context@.len() <= 255, out_len < 65536,
    ensures r@ == hkdf_label(label@, context@, out_len as int), r@.len() == 10 + label@.len() + context@.len(),
//@start
    assert((out_len >> 8) as u8 == (out_len as int / 256) as u8) by { assert(out_len >> 8 == out_len / 256) by(bit_vector); }
    assert(out_len as u8 == (out_len as int % 256) as u8) by { assert(out_len as u8 == (out_len % 256) as u8) by(bit_vector); }
//@end
    assert(res@ =~= hkdf_label(label@, context@, out_len as int));
//@endfn
impl CipherSuite {
//@fn crypto/ciphersuite.rs impl CipherSuite :: fn get_key_and_iv_len
//@ret r
//@spec
    ensures r.0 == suite_key_len(*self), r.1 == 12,
//@endfn
}
//@item net/key_schedule.rs struct Key
//@item net/key_schedule.rs struct WriteKeys
//@item net/key_schedule.rs struct KeySchedule
impl Key {
//@fn net/key_schedule.rs impl Key :: fn from_hkdf
//@ret r
//@subst `iv.try_into().unwrap()` => `vec_to_arr12(iv)`
//@subst `hkdf.pseudo_random_key.to_owned()` => `hkdf.pseudo_random_key.clone()` opt
//@spec
    requires hkdf.pseudo_random_key@.len() < MAXKEY(), key_len <= 32, iv_len == 12,
    ensures r is Some, fresh_key(r->0, hkdf.hash, hkdf.pseudo_random_key@, key_len as int),
//@endfn
}
impl WriteKeys {
//@fn net/key_schedule.rs impl WriteKeys :: fn handshake_keys
//@ret r
//@spec
    requires
        key_schedule.server_handshake_traffic_secret.pseudo_random_key@.len() < MAXKEY(), key_schedule.client_handshake_traffic_secret.pseudo_random_key@.len() < MAXKEY(),
    ensures
        r is Some,
        fresh_key(r->0.server, key_schedule.server_handshake_traffic_secret.hash, key_schedule.server_handshake_traffic_secret.pseudo_random_key@, suite_key_len(cs)),
        fresh_key(r->0.client, key_schedule.client_handshake_traffic_secret.hash, key_schedule.client_handshake_traffic_secret.pseudo_random_key@, suite_key_len(cs)),
//@endfn
//@fn net/key_schedule.rs impl WriteKeys :: fn application_keys_from_master_secret
//@ret r
//@spec
    requires hkdf_master_secret.pseudo_random_key@.len() < MAXKEY(), handshake_hash@.len() == hlen(hkdf_master_secret.hash),
    ensures
        r is Some,
        fresh_key(r->0.client, hkdf_master_secret.hash, derive_secret(hkdf_master_secret.hash, hkdf_master_secret.pseudo_random_key@, {{B:c ap traffic}}, handshake_hash@), suite_key_len(cs)),
        fresh_key(r->0.server, hkdf_master_secret.hash, derive_secret(hkdf_master_secret.hash, hkdf_master_secret.pseudo_random_key@, {{B:s ap traffic}}, handshake_hash@), suite_key_len(cs)),
//@endfn
}
impl KeySchedule {
//@fn net/key_schedule.rs impl KeySchedule :: fn do_key_schedule
//@ret r
//@spec
    requires hello_hash@.len() == hlen(hash), shared_secret@.len() < 0x1000,
    ensures r is Some, schedule_s(r->0, hash, shared_secret@, hello_hash@),
//@start
    assert(forall|s: Seq<u8>| s.len() == 0 ==> s =~= Seq::<u8>::empty());
    assert forall|s: Seq<u8>| s.len() == hlen(hash) && (forall|i: int| 0 <= i < s.len() ==> s[i] == 0u8) implies s == #[trigger] zeros(s.len() as int) by { assert(s =~= zeros(s.len() as int)); }
    assert forall|s: Seq<u8>| s.len() == hlen(hash) && (forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == 0u8) implies s =~= zeros(hlen(hash)) by { }
//@after `let hash_len = hash as usize;` opt
    assert(hash_len == hlen(hash));
//@endfn
//@fn net/key_schedule.rs impl KeySchedule :: fn from_handshake
//@ret r
//@subst `tshash: &dyn TranscriptHash` => `tshash: &TsHash`
//@subst `bytes::ByteOrder::` => `ByteOrder::` opt all
//@subst `shared_secret.iter().all(|b| *b == 0)` => `vx_all_zero(&shared_secret)` opt
//@spec
    requires
        private_key.curve.equation is Montgomery,
        0 <= private_key.secret.v@ < ipow2(256),
        private_key.curve.g.x.v@ == 9, private_key.curve.g.y.v@ != 0,
    ensures
        key_share_entry.group != NamedGroup::X25519 ==> r is Err && r->Err_0 == TlsError::HandshakeFailure,
        key_share_entry.group == NamedGroup::X25519 && key_share_entry.opaque@.len() != 32 ==> r is Err && r->Err_0 == TlsError::IllegalParameter,
        key_share_entry.group == NamedGroup::X25519 && key_share_entry.opaque@.len() == 32 ==> ({
            let z = x25519_s(enc_be(private_key.secret.v@, 32), key_share_entry.opaque@);
            if z =~= zeros(32) { r is Err && r->Err_0 == TlsError::IllegalParameter }
            else { r is Ok && schedule_s(r->Ok_0, tshash.typ(), z, hash_s(tshash.typ(), tshash.fed())) }
        }),
//@start
    proof {
        lemma_be_bound(key_share_entry.opaque@); lemma_enc_be(key_share_entry.opaque@);
        let z = x25519_s(enc_be(private_key.secret.v@, 32), key_share_entry.opaque@);
        axiom_x25519_len(enc_be(private_key.secret.v@, 32), key_share_entry.opaque@); lemma_be_bound(z); lemma_enc_be(z);
    }
//@endfn
}
//@item net/handshake/mod.rs enum HandshakeType derive=PartialEq,Eq,Structural,Clone,Copy
/// the framing of Handshake::to_bytes: proved in unit framing, assumed here
struct Handshake {}
impl Handshake {
    #[verifier::external_body]
    fn to_bytes(typ: HandshakeType, data: Vec<u8>) -> (r: Vec<u8>)
        requires data@.len() < 0x100_0000,
        ensures r@ == hs_msg(typ as int, data@),
    { unimplemented!() }
}
pub open spec fn hs_msg(ty: int, body: Seq<u8>) -> Seq<u8>
{ seq![ty as u8, (body.len() / 65536) as u8, ((body.len() / 256) % 256) as u8, (body.len() % 256) as u8] + body }
//@fn net/handshake/finished.rs fn get_verify_data_for_finished
//@ret r
//@subst `tshash: &dyn TranscriptHash` => `tshash: &TsHash`
//@spec
    requires secret.pseudo_random_key@.len() < MAXKEY(), secret.hash == tshash.typ(),
    ensures r is Ok, r->Ok_0@ == verify_data_s(secret.hash, secret.pseudo_random_key@, hash_s(tshash.typ(), tshash.fed())), r->Ok_0@.len() == hlen(secret.hash),
//@before `Ok(verify_data.result())` opt
    assert(verify_data.input@ =~= hash_s(tshash.typ(), tshash.fed()));
//@endfn
//@fn net/handshake/finished.rs fn get_finished_handshake
//@ret r
//@subst `tshash: &dyn TranscriptHash` => `tshash: &TsHash`
//@subst `super::HandshakeType::Finished` => `HandshakeType::Finished` opt
//@spec
    requires secret.pseudo_random_key@.len() < MAXKEY(), secret.hash == tshash.typ(),
    ensures r is Ok, r->Ok_0@ == hs_msg(20, verify_data_s(secret.hash, secret.pseudo_random_key@, hash_s(tshash.typ(), tshash.fed()))), verify_data_s(secret.hash, secret.pseudo_random_key@, hash_s(tshash.typ(), tshash.fed())).len() == hlen(secret.hash),
//@endfn
}
fn main() {}
