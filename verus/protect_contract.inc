// contracts of the record protection: proved in unit record (check P15), assumed here
impl RecordPayloadProtection {
    #[verifier::external_body]
    fn new(key_schedule: KeySchedule, cipher: Aead, is_client: bool) -> (r: Option<Self>)
    requires ks_ok(key_schedule),
    ensures
        r is Some, wf(r->0), r->0.application_keys is None, r->0.is_client == is_client, r->0.key_schedule == key_schedule, r->0.cipher == cipher,
        fresh_key(r->0.handshake_keys.server, key_schedule.server_handshake_traffic_secret.hash, key_schedule.server_handshake_traffic_secret.pseudo_random_key@, suite_key_len(cipher.suite())),
        fresh_key(r->0.handshake_keys.client, key_schedule.client_handshake_traffic_secret.hash, key_schedule.client_handshake_traffic_secret.pseudo_random_key@, suite_key_len(cipher.suite())),
    { unimplemented!() }
    #[verifier::external_body]
    fn generate_application_keys(&mut self, tshash: &TsHash) -> (r: Result<(), TlsError>)
    requires wf(*old(self)), ks_ok(old(self).key_schedule), old(self).key_schedule.hkdf_master_secret.hash == tshash.typ(),
    ensures
        r is Ok, wf(*final(self)), final(self).handshake_keys == old(self).handshake_keys, final(self).key_schedule == old(self).key_schedule, final(self).cipher == old(self).cipher, final(self).is_client == old(self).is_client,
        final(self).application_keys is Some,
        fresh_key(final(self).application_keys->0.client, old(self).key_schedule.hkdf_master_secret.hash, derive_secret(old(self).key_schedule.hkdf_master_secret.hash, old(self).key_schedule.hkdf_master_secret.pseudo_random_key@, {{B:c ap traffic}}, hash_s(tshash.typ(), tshash.fed())), suite_key_len(old(self).cipher.suite())),
        fresh_key(final(self).application_keys->0.server, old(self).key_schedule.hkdf_master_secret.hash, derive_secret(old(self).key_schedule.hkdf_master_secret.hash, old(self).key_schedule.hkdf_master_secret.pseudo_random_key@, {{B:s ap traffic}}, hash_s(tshash.typ(), tshash.fed())), suite_key_len(old(self).cipher.suite())),
    { unimplemented!() }
    #[verifier::external_body]
    fn encrypt(&mut self, record: Record<'_>) -> (r: Result<Vec<u8>, TlsError>)
    requires wf(*old(self)),
    ensures
        wf(*final(self)), same_but_counters(*final(self), *old(self)), recv_key(*final(self)) == recv_key(*old(self)),
        (r is Ok) == (vbytes(record.fraqment).len() <= 16384 && send_key(*old(self)).sequence_number < u64::MAX),
        r is Ok ==> r->Ok_0@ == sealed_s(old(self).cipher.suite(), send_key(*old(self)), send_key(*old(self)).sequence_number, record.content_type as u8, vbytes(record.fraqment)) && send_key(*final(self)).sequence_number == send_key(*old(self)).sequence_number + 1,
        r is Err ==> *final(self) == *old(self) && r->Err_0 == TlsError::InternalError,
    { unimplemented!() }
    #[verifier::external_body]
    fn decrypt(&mut self, record: Record<'_>) -> (r: Result<(RecordType, Vec<u8>), TlsError>)
    requires wf(*old(self)),
    ensures
        wf(*final(self)), same_but_counters(*final(self), *old(self)), send_key(*final(self)) == send_key(*old(self)),
        // nothing is opened without the right key, counter, header and tag
        r is Ok ==> ({
            let k = recv_key(*old(self)); let f = vbytes(record.fraqment); let cs = old(self).cipher.suite(); let n = nonce_s(k.iv@, k.sequence_number);
            f.len() >= 17 && k.sequence_number < u64::MAX && tag_of(f) == aead_tag(cs, k.key@, n, ciphertext_of(f), record.header@)
            && inner_s(open_pt(cs, k.key@, n, ciphertext_of(f), record.header@)) == Some((r->Ok_0.0 as u8, r->Ok_0.1@)) && r->Ok_0.0 != RecordType::Invalid
            && recv_key(*final(self)).sequence_number == k.sequence_number + 1
        }),
        // and everything that is authentic and holds a known type is opened
        ({
            let k = recv_key(*old(self)); let f = vbytes(record.fraqment); let cs = old(self).cipher.suite(); let n = nonce_s(k.iv@, k.sequence_number);
            f.len() >= 17 && k.sequence_number < u64::MAX && tag_of(f) == aead_tag(cs, k.key@, n, ciphertext_of(f), record.header@)
            && inner_s(open_pt(cs, k.key@, n, ciphertext_of(f), record.header@)) is Some && known_type((inner_s(open_pt(cs, k.key@, n, ciphertext_of(f), record.header@))->0).0) ==> r is Ok
        }),
    { unimplemented!() }
}
