// ---- what certificates and CertificateVerify say ----
/// the P-256 key of a certificate, if it has one
pub open spec fn key_of(x: X509) -> Option<(int, int)> {
    let k = x.tbs_certificate.subject_public_key_info; let b = k.subject_public_key.0@;
    if k.algorithm.algorithm == Algorithms::EcPublicKey && k.algorithm.parameters == Some({{ID:prime256v1}}) && b.len() == 65 && b[0] == 4 { Some((bei(b.subrange(1, 33)), bei(b.subrange(33, 65)))) } else { None }
}
/// the ECDSA verification equation on P-256 (what Ecdsa::verify decides, check P12)
pub uninterp spec fn ecdsa_ok(key: (int, int), r: int, s: int, hash: Seq<u8>) -> bool;
pub open spec fn spaces() -> Seq<u8> { Seq::new(64, |i: int| 0x20u8) }
/// RFC 8446, 4.4.3: what a CertificateVerify signs
pub open spec fn cv_content(label: Seq<u8>, th: Seq<u8>) -> Seq<u8> { spaces() + {{B:TLS 1.3, }} + label + {{B: CertificateVerify}} + seq![0u8] + th }
/// ca has signed x
pub open spec fn signed_by(ca: X509, x: X509) -> bool {
    &&& key_of(ca) is Some && x.signature is Some && x.signature_algorithm == Algorithms::EcdsaWithSha256 && x.tbs_certificate.raw_data is Some
    &&& ecdsa_ok(key_of(ca)->0, x.signature->0.r.v@, x.signature->0.s.v@, sha256_s(x.tbs_certificate.raw_data->0@))
}
/// the CertificateVerify signature r, s is by the key of c, over the transcript hashed to th
pub open spec fn cv_valid(x: X509, r: int, s: int, label: Seq<u8>, th: Seq<u8>) -> bool { key_of(x) is Some && ecdsa_ok(key_of(x)->0, r, s, sha256_s(cv_content(label, th))) }
