// ---- RFC 8446, 7.1: HKDF-Expand-Label, Derive-Secret ----
/// struct { uint16 length; opaque label<7..255> = "tls13 " + Label; opaque context<0..255>; } HkdfLabel
pub open spec fn hkdf_label(label: Seq<u8>, context: Seq<u8>, length: int) -> Seq<u8> {
    seq![(length / 256) as u8, (length % 256) as u8, (6 + label.len()) as u8] + {{B:tls13 }} + label + seq![context.len() as u8] + context
}
pub open spec fn expand_label(h: HashType, secret: Seq<u8>, label: Seq<u8>, context: Seq<u8>, length: int) -> Seq<u8>
{ hkdf_okm(h, secret, hkdf_label(label, context, length), length) }
/// Derive-Secret(Secret, Label, Messages), with the hash of the messages already taken
pub open spec fn derive_secret(h: HashType, secret: Seq<u8>, label: Seq<u8>, thash: Seq<u8>) -> Seq<u8>
{ expand_label(h, secret, label, thash, hlen(h)) }
pub open spec fn early_secret(h: HashType) -> Seq<u8> { hmac_s(h, zeros(hlen(h)), zeros(hlen(h))) }
pub open spec fn handshake_secret(h: HashType, ecdhe: Seq<u8>) -> Seq<u8>
{ hmac_s(h, derive_secret(h, early_secret(h), {{B:derived}}, hash_s(h, Seq::<u8>::empty())), ecdhe) }
pub open spec fn master_secret(h: HashType, ecdhe: Seq<u8>) -> Seq<u8>
{ hmac_s(h, derive_secret(h, handshake_secret(h, ecdhe), {{B:derived}}, hash_s(h, Seq::<u8>::empty())), zeros(hlen(h))) }
pub open spec fn client_hs_secret(h: HashType, ecdhe: Seq<u8>, th: Seq<u8>) -> Seq<u8> { derive_secret(h, handshake_secret(h, ecdhe), {{B:c hs traffic}}, th) }
pub open spec fn server_hs_secret(h: HashType, ecdhe: Seq<u8>, th: Seq<u8>) -> Seq<u8> { derive_secret(h, handshake_secret(h, ecdhe), {{B:s hs traffic}}, th) }
// ---- 7.3: traffic keys ----
pub open spec fn traffic_key(h: HashType, secret: Seq<u8>, n: int) -> Seq<u8> { expand_label(h, secret, {{B:key}}, Seq::<u8>::empty(), n) }
pub open spec fn traffic_iv(h: HashType, secret: Seq<u8>, n: int) -> Seq<u8> { expand_label(h, secret, {{B:iv}}, Seq::<u8>::empty(), n) }
// ---- 4.4.4: Finished ----
pub open spec fn verify_data_s(h: HashType, base: Seq<u8>, th: Seq<u8>) -> Seq<u8>
{ hmac_s(h, expand_label(h, base, {{B:finished}}, Seq::<u8>::empty(), hlen(h)), th) }
/// what a fresh Key holds for a traffic secret
pub open spec fn fresh_key(k: Key, h: HashType, secret: Seq<u8>, n: int) -> bool {
    &&& k.traffic_secret@ == secret
    &&& k.key@ == traffic_key(h, secret, n)
    &&& k.iv@ == traffic_iv(h, secret, 12)
    &&& k.sequence_number == 0
    &&& k.key@.len() == n
}
