//@item net/record.rs struct RecordPayloadProtection `Arc<dyn Cipher + Send + Sync>` => `Aead`
/// the secrets are of a size the hash functions take
pub open spec fn ks_ok(k: KeySchedule) -> bool { k.client_handshake_traffic_secret.pseudo_random_key@.len() < MAXKEY() && k.server_handshake_traffic_secret.pseudo_random_key@.len() < MAXKEY() && k.hkdf_master_secret.pseudo_random_key@.len() < MAXKEY() }
/// the keys in force: the application keys once they exist
pub open spec fn active(s: RecordPayloadProtection) -> WriteKeys { if s.application_keys is Some { s.application_keys->0 } else { s.handshake_keys } }
pub open spec fn send_key(s: RecordPayloadProtection) -> Key { if s.is_client { active(s).client } else { active(s).server } }
pub open spec fn recv_key(s: RecordPayloadProtection) -> Key { if s.is_client { active(s).server } else { active(s).client } }
pub open spec fn wf(s: RecordPayloadProtection) -> bool {
    let n = suite_key_len(s.cipher.suite());
    &&& s.handshake_keys.client.key@.len() == n && s.handshake_keys.server.key@.len() == n
    &&& s.application_keys is Some ==> s.application_keys->0.client.key@.len() == n && s.application_keys->0.server.key@.len() == n
}
pub open spec fn same_key(a: Key, b: Key) -> bool { a.key == b.key && a.iv == b.iv && a.traffic_secret == b.traffic_secret }
/// everything but the two counters is untouched
pub open spec fn same_but_counters(a: RecordPayloadProtection, b: RecordPayloadProtection) -> bool {
    &&& a.key_schedule == b.key_schedule && a.cipher == b.cipher && a.is_client == b.is_client
    &&& (a.application_keys is Some) == (b.application_keys is Some)
    &&& a.application_keys is Some ==> a.handshake_keys == b.handshake_keys
    &&& same_key(active(a).client, active(b).client) && same_key(active(a).server, active(b).server)
}
pub open spec fn header_s(n: int) -> Seq<u8> { seq![23u8, 3u8, 3u8] + be16(n) }
/// the protected record: header, AEAD ciphertext of content and type, tag
pub open spec fn sealed_s(cs: CipherSuite, k: Key, seq: u64, ty: u8, content: Seq<u8>) -> Seq<u8> {
    let h = header_s(content.len() as int + 17);
    let ct = seal_ct(cs, k.key@, nonce_s(k.iv@, seq), content.push(ty), h);
    h + ct + aead_tag(cs, k.key@, nonce_s(k.iv@, seq), ct, h)
}
/// type and content of an inner plaintext: what stands before the last non-zero byte
pub open spec fn inner_s(p: Seq<u8>) -> Option<(u8, Seq<u8>)> decreases p.len()
{ if p.len() == 0 { None } else if p.last() != 0 { Some((p.last(), p.drop_last())) } else { inner_s(p.drop_last()) } }
proof fn lemma_inner(p: Seq<u8>, i: int)
    requires 0 <= i < p.len(), p[i] != 0, forall|j: int| i < j < p.len() ==> p[j] == 0,
    ensures inner_s(p) == Some((p[i], p.subrange(0, i))),
    decreases p.len()
{ if i < p.len() - 1 { lemma_inner(p.drop_last(), i); assert(p.drop_last().subrange(0, i) =~= p.subrange(0, i)); } else { assert(p.drop_last() =~= p.subrange(0, i)); } }
proof fn lemma_inner_none(p: Seq<u8>)
    requires forall|j: int| 0 <= j < p.len() ==> p[j] == 0,
    ensures inner_s(p) is None, decreases p.len()
{ if p.len() > 0 { lemma_inner_none(p.drop_last()); } }
/// any amount of zero padding is removed
proof fn lemma_padding(content: Seq<u8>, ty: u8, n: nat)
    requires ty != 0,
    ensures inner_s(content.push(ty) + zeros(n as int)) == Some((ty, content)),
{
    let p = content.push(ty) + zeros(n as int);
    lemma_inner(p, content.len() as int); assert(p.subrange(0, content.len() as int) =~= content);
}
pub open spec fn ciphertext_of(f: Seq<u8>) -> Seq<u8> { f.subrange(0, f.len() - 16) }
pub open spec fn tag_of(f: Seq<u8>) -> Seq<u8> { f.subrange(f.len() - 16, f.len() as int) }
/// what a sealed record holds when the peer opens it with the same key, IV and counter
proof fn lemma_open_sealed(cs: CipherSuite, k: Key, seq: u64, ty: u8, content: Seq<u8>)
    requires ty != 0, content.len() <= 16384,
    ensures ({
        let s = sealed_s(cs, k, seq, ty, content);
        let h = s.subrange(0, 5); let f = s.subrange(5, s.len() as int); let n = nonce_s(k.iv@, seq);
        s.len() == 5 + content.len() + 17 && s[0] == 23 && h == header_s(f.len() as int)
        && tag_of(f) == aead_tag(cs, k.key@, n, ciphertext_of(f), h)
        && inner_s(open_pt(cs, k.key@, n, ciphertext_of(f), h)) == Some((ty, content))
    }),
{
    let hs = header_s(content.len() as int + 17); let n = nonce_s(k.iv@, seq); let p = content.push(ty);
    let ct = seal_ct(cs, k.key@, n, p, hs);
    axiom_aead(cs, k.key@, n, p, hs); axiom_aead(cs, k.key@, n, ct, hs);
    let s = sealed_s(cs, k, seq, ty, content); let f = s.subrange(5, s.len() as int);
    assert(s.subrange(0, 5) =~= hs); assert(ciphertext_of(f) =~= ct); assert(tag_of(f) =~= aead_tag(cs, k.key@, n, ct, hs));
    lemma_padding(content, ty, 0); assert(p + zeros(0) =~= p);
}
