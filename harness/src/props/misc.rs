use crate::ctx::*;
use crate::refs;
use anothertls::crypto::ellipticcurve::Signature;
use anothertls::net::alert::{AlertLevel, TlsError};
use anothertls::net::handshake::Certificate;
use anothertls::rand::{RngCore, SeedableRng, SimpleRng, URandomRng};
use anothertls::utils::{base64, bytes, der, pem, x509::X509};
use ibig::IBig;

fn sig_case(c: &mut Ctx, r: &IBig, s: &IBig) {
    let want = refs::der_sig(r, s);
    c.case("encoding and decoding a signature", &|| format!("r={:x} s={:x}", r, s), || {
        let d = Signature::new(s.clone(), r.clone()).to_der();
        if d != want { return Err(format!("encoded as {} instead of {}", hex(&d), hex(&want))) }
        let mut b = d.clone(); b.extend([7, 7]);
        for v in [&d, &b] {
            let (g, n) = Signature::from_der(v).map_err(|e| format!("its own encoding is refused: {:?}", e))?;
            if g.r != *r || g.s != *s || n != d.len() { return Err(format!("decoded to r={:x} s={:x}, {} bytes used", g.r, g.s, n)) }
        }
        Ok(())
    });
}
/// strict reader of one element: (tag, body, total)
fn tlv(b: &[u8]) -> Option<(u8, &[u8], usize)> {
    let t = *b.first()?;
    let l0 = *b.get(1)? as usize;
    let (l, h) = if l0 < 128 { (l0, 2) } else { let k = l0 & 127; if k == 0 || k > 8 { return None } let mut v = 0u64; for i in 0..k { v = v << 8 | *b.get(2 + i)? as u64 } (v as usize, 2 + k) };
    Some((t, b.get(h..h.checked_add(l)?)?, h + l))
}
fn from_case(c: &mut Ctx, b: &[u8]) {
    c.case("decoding arbitrary bytes as a signature", &|| if b.len() > 300 { format!("{}... {} bytes", hex(&b[..60]), b.len()) } else { hex(b) }, || {
        if let Ok((g, n)) = Signature::from_der(b) {
            let bad = |w: &str| Err(format!("{} accepted as r={:x} s={:x}, {} bytes used", w, g.r, g.s, n));
            let (t, body, used) = match tlv(b) { Some(x) => x, None => return bad("something that is no element") };
            if t != 0x30 { return bad("another tag than SEQUENCE") }
            if used != n { return bad("another number of bytes than the element has") }
            let (t1, i1, n1) = match tlv(body) { Some(x) => x, None => return bad("a sequence without integers") };
            let (t2, i2, n2) = match tlv(&body[n1..]) { Some(x) => x, None => return bad("a sequence of one integer") };
            if t1 != 2 || t2 != 2 || n1 + n2 != body.len() { return bad("a sequence of other things") }
            if i1.is_empty() || i2.is_empty() || i1[0] > 127 || i2[0] > 127 { return bad("a negative or empty integer") }
            if g.r != refs::be_int(i1) || g.s != refs::be_int(i2) { return bad("a signature with other numbers") }
        }
        Ok(())
    });
}
pub fn p13(c: &mut Ctx) {
    let one = IBig::from(1);
    let mut nums = vec![IBig::from(0), one.clone(), IBig::from(127), IBig::from(128), IBig::from(255), IBig::from(256)];
    for k in [7usize, 8, 15, 16, 31, 64, 127, 128, 240, 247, 248, 254, 255] { let v: IBig = IBig::from(1) << k; nums.push(&v - &one); nums.push(v.clone()); nums.push(v + &one) }
    nums.push((IBig::from(1) << 256) - &one);
    for a in nums.clone() { for b in nums.clone() { sig_case(c, &a, &b) } }
    let base = refs::der_sig(&refs::be_int(&[0x80; 32]), &refs::be_int(&[0x11; 31]));
    for l in 0..=base.len() { from_case(c, &base[..l]) }
    for i in 0..base.len() { for v in 0..=255u8 { let mut b = base.clone(); b[i] = v; from_case(c, &b); if i < 6 { b.extend([0; 40]); from_case(c, &b) } } }
    for l in [0usize, 1, 2, 127, 128, 129, 255, 256, 300, 65535] { for n in [1usize, 2, 3, 4, 8, 9] {
        let mut b = vec![0x30, 0x80 | n as u8]; b.extend((0..n).map(|i| if (n - 1 - i) < 8 { (l >> (8 * (n - 1 - i))) as u8 } else { 0 }));
        from_case(c, &b);
        let mut v = refs::der_tlv(2, &vec![1; l]); v.extend(refs::der_tlv(2, &[5])); let mut b2 = b.clone(); b2.extend(&v); from_case(c, &b2); from_case(c, &refs::der_tlv(0x30, &v));
    } }
    for t in 0..=255u8 { for p in [1usize, 2] { let mut b = vec![0x30, 6, 2, 1, 5, 2, 1, 6]; b[p * 3 - 1] = t; from_case(c, &b); b[0] = t; from_case(c, &b) } }
    for b in [&b"\x30\x06\x02\x01\x80\x02\x01\x01"[..], b"\x30\x06\x02\x01\x01\x02\x01\xff", b"\x30\x04\x02\x00\x02\x00", b"\x30\x09\x02\x01\x01\x02\x01\x02\x02\x01\x03", b"\x30\x03\x02\x01\x01", b"\x30\x05\x02\x01\x01\x02\x01\x02", b"\x30\x07\x02\x01\x01\x02\x01\x02", b"\x30\x80\x02\x01\x01\x02\x01\x02\0\0", b"\x30\xff", b"\x30\x88\xff\xff\xff\xff\xff\xff\xff\xff", b"\x30\x89\0\0\0\0\0\0\0\0\x06\x02\x01\x01\x02\x01\x02"] { from_case(c, b) }
    while c.go() {
        let (a, b) = (c.rng.below(33), c.rng.below(33));
        let (x, y) = (refs::be_int(&c.rng.edgy(a)), refs::be_int(&c.rng.edgy(b)));
        sig_case(c, &x, &y);
        let mut d = refs::der_sig(&x, &y);
        for _ in 0..1 + c.rng.below(2) { let i = c.rng.below(d.len()); let m = c.rng.below(12); let j = if m < 6 { m.min(d.len() - 1) } else { i }; d[j] = match c.rng.below(4) { 0 => 0, 1 => 0x80, 2 => d[j].wrapping_add(1), _ => c.rng.u64() as u8 } }
        if c.rng.below(3) == 0 { let l = c.rng.below(d.len() + 1); d.truncate(l) }
        from_case(c, &d);
        let n = c.rng.below(40); let r = c.rng.edgy(n); from_case(c, &r);
    }
}

const CODES: [(u8, TlsError); 20] = [(0, TlsError::CloseNotify), (10, TlsError::UnexpectedMessage), (20, TlsError::BadRecordMac), (40, TlsError::HandshakeFailure), (42, TlsError::BadCertificate), (43, TlsError::UnsupportedCertificate), (44, TlsError::CertificateRevoked), (45, TlsError::CertificateExpired), (46, TlsError::CertificateUnknown), (47, TlsError::IllegalParameter), (48, TlsError::UnknownCa), (49, TlsError::AccessDenied), (50, TlsError::DecryptError), (51, TlsError::DecodeError), (70, TlsError::ProtocolVersion), (71, TlsError::InsufficientSecurity), (80, TlsError::InternalError), (109, TlsError::MissingExtension), (112, TlsError::UnrecognizedName), (116, TlsError::CertificateRequired)];
pub fn p21(c: &mut Ctx) {
    use std::io::Read;
    for (code, err) in CODES {
        c.case("alert code to error", &|| format!("{}", code), || if TlsError::new(code) == err { Ok(()) } else { Err(format!("decoded as {:?}", TlsError::new(code))) });
        c.case("error to alert code", &|| format!("{:?}", err), || if err.as_u8() == code { Ok(()) } else { Err(format!("encoded as {}", err.as_u8())) });
    }
    for code in 0..=255u8 {
        c.case("unknown codes are no close notification", &|| format!("{}", code), || { let e = TlsError::new(code); if code != 0 && (e.as_u8() == 0 || e == TlsError::CloseNotify) { Err(format!("code {} becomes {:?}", code, e)) } else { Ok(()) } });
        // only errors that stand for RFC codes are ever sent; a received alert is not sent back
        c.case("received alert", &|| format!("{}", code), || if TlsError::GotAlert(code).as_u8() == code { Ok(()) } else { Err("code of a received alert changed".into()) });
    }
    for e in CODES.iter().map(|x| x.1).chain([TlsError::NotOfficial, TlsError::BrokenPipe]) {
        c.case("level", &|| format!("{:?}", e), || { let l = AlertLevel::get_from_error(e) as u8; if l == if e == TlsError::CloseNotify { 1 } else { 2 } { Ok(()) } else { Err(format!("level {}", l)) } });
        c.case("only the close notification is code 0", &|| format!("{:?}", e), || if e.as_u8() == 0 && e != TlsError::CloseNotify { Err("code 0".into()) } else { Ok(()) });
        // what is really written on the wire
        c.case("alert record", &|| format!("{:?}", e), || {
            let l = std::net::TcpListener::bind("127.0.0.1:0").map_err(|e| e.to_string())?;
            let s = std::net::TcpStream::connect(l.local_addr().unwrap()).map_err(|e| e.to_string())?;
            let (mut r, _) = l.accept().map_err(|e| e.to_string())?;
            let mut t = anothertls::net::TlsStream::new(s);
            t.write_alert(e).map_err(|e| format!("{:?}", e))?;
            drop(t);
            let mut v = vec![]; r.read_to_end(&mut v).map_err(|e| e.to_string())?;
            let w = [21, 3, 3, 0, 2, if e == TlsError::CloseNotify { 1 } else { 2 }, e.as_u8()];
            if v.len() == 7 && v[0] == 21 && v[3..] == w[3..] { Ok(()) } else { Err(format!("wrote {}", hex(&v))) }
        });
    }
}

// ------------------------------------------------------------------ certificates built by the harness
pub const OID_CN: &[u8] = &[0x55, 4, 3];
pub const OID_ES256: &[u8] = &[0x2a, 0x86, 0x48, 0xce, 0x3d, 4, 3, 2];
pub const OID_ES384: &[u8] = &[0x2a, 0x86, 0x48, 0xce, 0x3d, 4, 3, 3];
pub const OID_EC: &[u8] = &[0x2a, 0x86, 0x48, 0xce, 0x3d, 2, 1];
pub const OID_P256: &[u8] = &[0x2a, 0x86, 0x48, 0xce, 0x3d, 3, 1, 7];
pub fn seq(parts: &[Vec<u8>]) -> Vec<u8> { refs::der_tlv(0x30, &parts.concat()) }
pub fn name(n: &str) -> Vec<u8> { seq(&[refs::der_tlv(0x31, &seq(&[refs::der_tlv(6, OID_CN), refs::der_tlv(12, n.as_bytes())]))]) }
pub struct Key { pub d: IBig, pub q: refs::Pt }
pub fn key(n: u64) -> Key { let d = refs::be_int(&refs::sha256(&n.to_be_bytes())); let d = refs::md(d, &refs::p256().n); Key { q: refs::ec_mul(&d, &refs::ec_g()), d } }
pub fn point(q: &refs::Pt) -> Vec<u8> { let (x, y) = q.clone().unwrap(); let mut v = vec![0u8, 4]; v.extend(refs::to_be32(&x)); v.extend(refs::to_be32(&y)); v }
pub fn tbs(subject: &str, q: &refs::Pt, from: &str, to: &str, alg: &[u8]) -> Vec<u8> { tbs_named(name(subject), q, from, to, alg) }
pub fn tbs_named(subject: Vec<u8>, q: &refs::Pt, from: &str, to: &str, alg: &[u8]) -> Vec<u8> {
    seq(&[refs::der_tlv(0xa0, &refs::der_tlv(2, &[2])), refs::der_tlv(2, &[5]), seq(&[refs::der_tlv(6, alg)]), name("CA"),
        seq(&[refs::der_tlv(0x17, from.as_bytes()), refs::der_tlv(0x17, to.as_bytes())]), subject,
        seq(&[seq(&[refs::der_tlv(6, OID_EC), refs::der_tlv(6, OID_P256)]), refs::der_tlv(3, &point(q))])])
}
pub fn finish(tbs: &[u8], alg: &[u8], sig: &[u8]) -> Vec<u8> { let mut v = vec![0]; v.extend(sig); seq(&[tbs.to_vec(), seq(&[refs::der_tlv(6, alg)]), refs::der_tlv(3, &v)]) }
pub fn sign(d: &IBig, hash: &[u8], k: u64) -> (IBig, IBig) { refs::ecdsa_sign(d, &refs::be_int(&refs::sha256(&k.to_le_bytes())[1..]), hash) }
pub fn cert(subject: &str, q: &refs::Pt, ca: &Key) -> Vec<u8> {
    let t = tbs(subject, q, "000101000000Z", "491231235959Z", OID_ES256);
    let (r, s) = sign(&ca.d, &refs::sha256(&t), 3);
    finish(&t, OID_ES256, &refs::der_sig(&r, &s))
}
fn sh(b: &[u8]) -> String { if b.len() > 900 { format!("{}... {} bytes", hex(&b[..450]), b.len()) } else { hex(b) } }
pub fn cert_hello(certs: &[&[u8]], ctx: &[u8]) -> Vec<u8> {
    let mut l = vec![];
    for x in certs { l.extend([(x.len() >> 16) as u8, (x.len() >> 8) as u8, x.len() as u8]); l.extend(*x); l.extend([0, 0]) }
    let mut o = vec![ctx.len() as u8]; o.extend(ctx); o.extend([(l.len() >> 16) as u8, (l.len() >> 8) as u8, l.len() as u8]); o.extend(l); o
}
fn eat(c: &mut Ctx, b: &[u8]) {
    c.case("X.509", &|| sh(b), || { if let Ok(x) = X509::from_raw(b) { let _ = x.get_public_key(); let _ = x.tbs_certificate.validity.is_valid(); let _ = format!("{} {}", x.tbs_certificate.issuer, x.tbs_certificate.subject); let _ = x.tbs_certificate.issuer.get("commonName"); } Ok(()) });
    c.case("DER element", &|| sh(b), || { for s in 0..b.len().min(4) + 1 { let mut k = s; if let Ok((n, _)) = der::der_parse(&mut k, b) { if k + n > b.len() { return Err("an element reaches beyond the bytes".into()) } } } Ok(()) });
    c.case("certificate message", &|| sh(b), || { let _ = Certificate::from_hello(b); let _ = Certificate::from_hello(&cert_hello(&[b], &[])); let _ = Signature::from_der(b); Ok(()) });
}
fn b64(b: &[u8]) -> String {
    const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut o = String::new();
    for ch in b.chunks(3) { let v = (ch[0] as u32) << 16 | (*ch.get(1).unwrap_or(&0) as u32) << 8 | *ch.get(2).unwrap_or(&0) as u32; for i in 0..4 { if i <= ch.len() { o.push(A[(v >> (18 - 6 * i)) as usize & 63] as char) } else { o.push('=') } } }
    o
}
fn b64_case(c: &mut Ctx, m: &[u8]) {
    let w = b64(m);
    c.case("base64 of bytes", &|| sh(m), || { let e = base64::encode(m); if e != w { return Err(format!("encoded as {}", e)) } match base64::decode(&e) { Some(d) if d == m => Ok(()), d => Err(format!("decoded to {:?}", d.map(|x| hex(&x)))) } });
}
/// what a base64 text stands for: groups of four of the alphabet, the last one ended by at most two `=`
fn b64_ref(t: &str) -> Option<Vec<u8>> {
    let s: Vec<char> = t.chars().collect();
    if s.len() % 4 != 0 { return None }
    let pad = if s.is_empty() || s[s.len() - 1] != '=' { 0 } else if s[s.len() - 2] == '=' { 2 } else { 1 };
    let mut v = vec![];
    for (i, ch) in s.iter().enumerate() { v.push(match ch { 'A'..='Z' => *ch as u32 - 65, 'a'..='z' => *ch as u32 - 71, '0'..='9' => *ch as u32 + 4, '+' => 62, '/' => 63, '=' if i >= s.len() - pad => 0, _ => return None }) }
    let mut o = vec![];
    for g in v.chunks(4) { let w = g[0] << 18 | g[1] << 12 | g[2] << 6 | g[3]; o.extend([(w >> 16) as u8, (w >> 8) as u8, w as u8]) }
    o.truncate(o.len() - pad);
    Some(o)
}
fn b64_text(c: &mut Ctx, t: &str) {
    let w = b64_ref(t);
    c.case("base64 text", &|| format!("{:?}", t), || {
        let d = base64::decode(t);
        if d == w { Ok(()) } else { Err(format!("decoded to {:?}, it stands for {:?}", d.map(|x| hex(&x)), w.as_ref().map(|x| hex(x)))) }
    });
}
pub fn p22(c: &mut Ctx) {
    let ca = key(1);
    let good = cert("leaf", &key(2).q, &ca);
    c.case("a well-formed certificate", &|| hex(&good), || { let x = X509::from_raw(&good).map_err(|e| format!("refused: {:?}", e))?; if x.get_public_key().is_none() { return Err("no public key".into()) } Ok(()) });
    eat(c, &good);
    for l in 0..good.len() { eat(c, &good[..l]) }
    for i in 0..good.len() { for v in [0u8, 1, 2, 3, 5, 0x17, 0x1f, 0x30, 0x31, 0x7f, 0x80, 0x81, 0x82, 0x84, 0x88, 0x89, 0xa0, 0xa3, 0xff] { let mut b = good.clone(); b[i] = v; eat(c, &b) } for d in [1u8, 2, 3, 253, 254, 255] { let mut b = good.clone(); b[i] = b[i].wrapping_add(d); eat(c, &b) } }
    // public keys of every length and form
    for l in 0..140usize { for f in [0u8, 2, 3, 4, 5, 0xff] { for un in [0u8, 1, 7, 8, 0xff] {
        if l > 70 && (un != 0 || f == 5) { continue }
        let mut k = vec![un]; k.extend(c.rng.bytes(l)); if l > 0 { k[1] = f }
        let t = seq(&[refs::der_tlv(0xa0, &refs::der_tlv(2, &[2])), refs::der_tlv(2, &[5]), seq(&[refs::der_tlv(6, OID_ES256)]), name("CA"),
            seq(&[refs::der_tlv(0x17, b"000101000000Z"), refs::der_tlv(0x17, b"491231235959Z")]), name("x"),
            seq(&[seq(&[refs::der_tlv(6, OID_EC), refs::der_tlv(6, OID_P256)]), refs::der_tlv(3, &k)])]);
        eat(c, &finish(&t, OID_ES256, &refs::der_sig(&IBig::from(1), &IBig::from(1))));
    } } }
    // nesting, and bit strings inside bit strings
    for n in [1usize, 2, 15, 16, 17, 18, 40, 1000, 30000] { for t in [0x30u8, 0x31, 3, 0x24, 0xa0] {
        let mut b = vec![]; let inner = n; for i in 0..inner { let rest = (inner - i) * 2; b.push(t); if rest < 128 { b.push((rest - 2) as u8) } else { b.push(0x80) } } eat(c, &b);
        let mut v = vec![5u8, 0]; for _ in 0..n.min(60) { let mut w = if t == 3 { vec![0u8] } else { vec![] }; w.extend(&v); v = refs::der_tlv(if t == 3 { if v[0] == 3 { 0x30 } else { 3 } } else { t }, &w) } eat(c, &v); eat(c, &seq(&[seq(&[v.clone()]), v]));
    } }
    // nesting so deep that no recursion without a limit survives it
    for ts in [&[0x30u8][..], &[0x31], &[3, 0x30], &[0x31, 0x30], &[0x30, 0x30, 0x31], &[0x30, 3, 0x31], &[0x24], &[0xa0], &[0x30, 0xa0]] { for around in 0..3 {
        let mut rev: Vec<u8> = vec![0, 5];
        for i in 0..600_000usize {
            let t = ts[i % ts.len()];
            if t == 3 { rev.push(0) }
            let mut l = rev.len();
            if l < 128 { rev.push(l as u8) } else { let mut k = 0u8; while l > 0 { rev.push(l as u8); l >>= 8; k += 1 } rev.push(0x80 | k) }
            rev.push(t);
        }
        rev.reverse();
        let b = match around { 0 => rev, 1 => seq(&[seq(&[rev])]), _ => seq(&[seq(&[refs::der_tlv(2, &[1]), refs::der_tlv(6, OID_ES256), rev])]) };
        eat(c, &b);
    } }
    for tag in 0..=255u8 { for l in [0usize, 1, 2, 3, 13, 17, 40] { let b = c.rng.edgy(l); let e = refs::der_tlv(tag, &b); eat(c, &e); eat(c, &seq(&[e.clone()])); eat(c, &seq(&[seq(&[e.clone()])])); eat(c, &seq(&[seq(&[refs::der_tlv(2, &[1]), e.clone(), e])])) } }
    for l in 0..12usize { for f in [0u8, 0x30, 0x80, 0xff, 3] { eat(c, &vec![f; l]) } }
    // lengths of every form, far beyond the bytes there are
    for tag in [2u8, 3, 4, 6, 12, 0x17, 0x30, 0x31, 0xa0, 0xa3] { for k in [0u8, 1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 0x7f] { for (hi, lo) in [(0xffu8, 0xffu8), (0xff, 0xfe), (0xff, 0xf0), (0x7f, 0xff), (0x80, 0), (0, 0), (0, 1), (0, 5), (1, 0)] { for more in [0usize, 1, 5, 20] {
        let n = (k as usize).min(20);
        let mut e = vec![tag, 0x80 | k];
        for i in 0..n { e.push(if i + 1 == n { lo } else if hi == 1 && i > 0 { 0 } else if hi == 0 || hi == 0x80 && i > 0 { 0 } else if hi == 0x7f && i > 0 { 0xff } else { hi }) }
        e.extend(c.rng.bytes(more));
        eat(c, &e);
        if more == 5 { eat(c, &seq(&[e.clone()])); eat(c, &seq(&[seq(&[e.clone()])])); eat(c, &seq(&[seq(&[refs::der_tlv(0xa0, &refs::der_tlv(2, &[2])), e.clone()])])); eat(c, &refs::der_tlv(3, &[&[0u8][..], &e[..]].concat())) }
    } } } }
    for i in 0..good.len() - 1 { for l in [&[0x88u8, 255, 255, 255, 255, 255, 255, 255, 255][..], &[0x88, 255, 255, 255, 255, 255, 255, 255, 0xf0], &[0x88, 0x7f, 255, 255, 255, 255, 255, 255, 255], &[0x84, 255, 255, 255, 255], &[0x89, 1, 0, 0, 0, 0, 0, 0, 0, 0], &[0x80]] { let mut b = good.clone(); b.splice(i + 1..i + 2, l.iter().copied()); eat(c, &b) } }
    let h = cert_hello(&[&good], &[1, 2, 3]);
    for l in 0..=h.len() { c.case("certificate message", &|| sh(&h[..l]), || { let _ = Certificate::from_hello(&h[..l]); Ok(()) }) }
    for i in 0..24.min(h.len()) { for v in 0..=255u8 { let mut b = h.clone(); b[i] = v; c.case("certificate message", &|| sh(&b), || { let _ = Certificate::from_hello(&b); Ok(()) }) } }
    // the extensions of a certificate: every length said, more or fewer bytes there
    for certs in [&[&good[..]][..], &[&good[..], &good[..]]] { for said in [0u16, 1, 2, 3, 4, 5, 7, 8, 255, 256, 4096, 65534, 65535] { for there in [0usize, 1, 2, 3, 4, 5, 8, 255, 256, 70000] { for fill in [0u8, 1, 0xff] {
        let mut l = vec![];
        for x in certs { l.extend([(x.len() >> 16) as u8, (x.len() >> 8) as u8, x.len() as u8]); l.extend(*x); l.extend(said.to_be_bytes()); l.extend(vec![fill; there]) }
        for off in [0isize, -1, 1, -(there as isize), -2 - there as isize, 70000] {
            let t = (l.len() as isize + off).max(0) as usize;
            let mut b = vec![0, (t >> 16) as u8, (t >> 8) as u8, t as u8]; b.extend(&l);
            c.case("certificate message", &|| sh(&b), || { let _ = Certificate::from_hello(&b); Ok(()) });
        }
    } } } }
    for i in h.len().saturating_sub(8)..h.len() { for v in 0..=255u8 { let mut b = h.clone(); b[i] = v; c.case("certificate message", &|| sh(&b), || { let _ = Certificate::from_hello(&b); Ok(()) }) } }
    { let two = cert_hello(&[&good, &good], &[]); let mut b = two.clone(); for l in 0..=two.len() { b.truncate(two.len() - l); c.case("certificate message", &|| sh(&b), || { let _ = Certificate::from_hello(&b); Ok(()) }) } }
    for l in 0..70usize { let m = c.rng.bytes(l); b64_case(c, &m); b64_case(c, &vec![0xff; l]); b64_case(c, &vec![0; l]) }
    for l in [1000usize, 4095, 4096, 8192, 12286, 12287, 12288, 16384, 20000, 65535, 65536, 70001] { let m = c.rng.bytes(l); b64_case(c, &m); b64_case(c, &vec![0; l]) }
    for a in 0..=255u8 { b64_case(c, &[a]); b64_case(c, &[a, !a]); b64_case(c, &[a ^ 0x55, a, 3]) }
    for ch in (0..0x180u32).chain([0x2028, 0xfffd, 0x10ffff]).filter_map(char::from_u32) { for p in 0..5 { let mut t: Vec<char> = "AAAAAAAA".chars().collect(); t[p] = ch; b64_text(c, &t.iter().collect::<String>()); let s: String = t[..4].iter().collect(); b64_text(c, &s); b64_text(c, &ch.to_string()); b64_text(c, &format!("{0}{0}{0}{0}", ch)); b64_text(c, &format!("A{}", ch)); b64_text(c, &format!("AA{}", ch)) } }
    for n in [1usize, 2, 3, 4, 5, 8] { let a = ['A', '/', '=']; for k in 0..3usize.pow(n as u32) { let mut x = k; let t: String = (0..n).map(|_| { let ch = a[x % 3]; x /= 3; ch }).collect(); b64_text(c, &t) } }
    for t in ["=", "==", "===", "====", "A===", "AA==", "AAA=", "=AAA", "A=AA", "AA=A", "AA==AAAA", "AAA=AAAA", "A", "AA", "AAA", "AAAAA", "AAAA\n", "AAAA\r\n", "\u{1f600}", "\u{1f600}AAA="] { b64_text(c, t) }
    let dir = std::path::PathBuf::from("p22-scratch"); let _ = std::fs::create_dir_all(&dir);
    let f = dir.join("t.pem").to_string_lossy().to_string();
    let body = b64(&good);
    let full = format!("-----BEGIN CERTIFICATE-----\n{}\n-----END CERTIFICATE-----\n", body.as_bytes().chunks(64).map(|x| std::str::from_utf8(x).unwrap()).collect::<Vec<_>>().join("\n"));
    let mut texts = vec![full.clone(), full.replace('\n', "\r\n"), full.replace("-----BEGIN", "----BEGIN"), String::new(), "-----BEGIN".into(), "-----BEGIN \n-----END".into(), "-----BEGIN-----\n-----END-----".into(), "-----BEGIN \u{e9}\u{e9}\u{e9}\u{e9}\nAA\n-----END".into(), "-----BEGIN X-----\n*\n-----END X-----\n".into(), "-----BEGIN X-----\nAAAA".into(), "-----BEGIN X-----\n-----BEGIN X-----\n-----END X-----\n-----END".into(), "-----BEGIN CERTIFICATE-----\n-----END CERTIFICATE-----".into()];
    for l in (0..full.len()).step_by(3) { texts.push(full[..l].into()) }
    for t in texts {
        if std::fs::write(&f, &t).is_err() { continue }
        c.case("PEM text", &|| format!("{:?}", t), || { let r = pem::get_pem_content_from_file(f.clone()); if t == full { match r { Some(m) if m.get("CERTIFICATE") == Some(&good) => return Ok(()), _ => return Err("a well-formed PEM text is not read as its bytes".into()) } } Ok(()) });
    }
    while c.go() {
        let mut b = good.clone();
        for _ in 0..1 + c.rng.below(4) { let i = c.rng.below(b.len()); b[i] = match c.rng.below(5) { 0 => 0, 1 => 0xff, 2 => b[i].wrapping_add(1), 3 => *c.rng.pick(&[2u8, 3, 6, 12, 0x13, 0x17, 0x30, 0x31, 0xa0, 0x80, 0x82]), _ => c.rng.u64() as u8 } }
        if c.rng.below(3) == 0 { let (i, l) = (c.rng.below(b.len()), c.rng.below(9)); let ins = c.rng.edgy(l); b.splice(i..i, ins); }
        if c.rng.below(3) == 0 { let l = c.rng.below(b.len() + 1); b.truncate(l) }
        eat(c, &b);
        // random well-formed trees
        fn tree(r: &mut Rng, d: usize) -> Vec<u8> { if d == 0 || r.below(3) == 0 { let l = r.below(20); let t = *r.pick(&[2u8, 3, 4, 5, 6, 12, 0x13, 0x17, 0x18, 0x80]); let b = r.edgy(l); refs::der_tlv(t, &b) } else { let n = r.below(4); let mut v = vec![]; if r.below(5) == 0 { v.push(0) } for _ in 0..n { v.extend(tree(r, d - 1)) } let t = *r.pick(&[0x30u8, 0x30, 0x31, 0xa0, 0xa3, 3]); refs::der_tlv(t, &v) } }
        let d = c.rng.below(20); let t = tree(&mut c.rng, d); eat(c, &t); eat(c, &seq(&[t.clone()])); eat(c, &seq(&[seq(&[t])]));
        let n = c.rng.below(100); let m = c.rng.edgy(n); b64_case(c, &m);
        { let m = c.rng.bytes(n); let mut t: Vec<u8> = b64(&m).into_bytes(); if !t.is_empty() { let i = c.rng.below(t.len()); t[i] = *c.rng.pick(&[b'=', b'-', b'_', b'A', b'z', b' ', 0, 0x7f, b'@', b'[', b'`', b'{']); b64_text(c, std::str::from_utf8(&t).unwrap()) } }
        let n = c.rng.below(20); let t: String = (0..n).map(|_| *c.rng.pick(&['A', 'z', '9', '+', '/', '=', '=', '-', '\u{e9}', '\n', ' '])).collect(); b64_text(c, &t);
    }
    let _ = std::fs::remove_dir_all(&dir);
}

/// the second `t` as a UTCTime
pub fn utc_text(t: u64) -> String {
    let leap = |y: u64| y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
    let (mut d, s) = (t / 86400, t % 86400);
    let mut y = 1970; while d >= if leap(y) { 366 } else { 365 } { d -= if leap(y) { 366 } else { 365 }; y += 1 }
    let mut m = 1; loop { let n = match m { 2 => if leap(y) { 29 } else { 28 }, 4 | 6 | 9 | 11 => 30, _ => 31 }; if d < n { break } d -= n; m += 1 }
    format!("{:02}{:02}{:02}{:02}{:02}{:02}Z", y % 100, m, d + 1, s / 3600, s / 60 % 60, s % 60)
}

// ------------------------------------------------------------------ P23: the private parser through the source itself
#[cfg(feature = "p23")]
mod x509src {
    pub mod utils {
        pub use anothertls::utils::{bytes, der, log};
        pub mod x509 {
            #![allow(dead_code)]
            include!("/repo/anothertls/src/utils/x509.rs");
            impl From<anothertls::utils::x509::ParseError> for ParseError { fn from(_: anothertls::utils::x509::ParseError) -> Self { ParseError::DerParseLen } }
            pub fn vx_parse(s: &str) -> Option<UtcTime> { UtcTime::from_utc_timestamp(s) }
            pub fn vx_validity(a: Option<UtcTime>, b: Option<UtcTime>) -> bool { Validity { not_before: a, not_after: b }.is_valid() }
        }
    }
}
#[cfg(feature = "p23")]
pub fn p23(c: &mut Ctx) {
    use x509src::utils::x509::{vx_parse, vx_validity, UtcTime};
    fn leap(y: u64) -> bool { y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) }
    fn mlen(y: u64, m: u64) -> u64 { match m { 2 => if leap(y) { 29 } else { 28 }, 4 | 6 | 9 | 11 => 30, _ => 31 } }
    fn unix(y: u64, m: u64, d: u64, h: u64, mi: u64, s: u64) -> u64 { if y < 1970 { return 0 } let mut t = 0; for k in 1970..y { t += if leap(k) { 366 } else { 365 } } for k in 1..m { t += mlen(y, k) } (t + d - 1) * 86400 + h * 3600 + mi * 60 + s }
    fn one(c: &mut Ctx, t: &str) {
        c.case("UTCTime", &|| format!("{:?}", t), || {
            let b = t.as_bytes();
            let mut want = None;
            if b.len() == 13 && b[12] == b'Z' && b[..12].iter().all(|x| (b'0'..=b'9').contains(x)) {
                let f = |i: usize| (b[i] - b'0') as u64 * 10 + (b[i + 1] - b'0') as u64;
                let y = if f(0) < 50 { 2000 + f(0) } else { 1900 + f(0) };
                if (1..=12).contains(&f(2)) && f(4) >= 1 && f(4) <= mlen(y, f(2)) && f(6) < 24 && f(8) < 60 && f(10) < 60 { want = Some((y, f(2), f(4), f(6), f(8), f(10))) }
            }
            match (vx_parse(t), want) {
                (None, None) => Ok(()),
                (None, Some(w)) => Err(format!("{:?} is refused", w)),
                (Some(_), None) => Err("accepted, though it is no date and time".into()),
                (Some(u), Some(w)) => {
                    if (u.year as u64, u.month as u64, u.day as u64, u.hour as u64, u.minute as u64, u.second as u64) != w { return Err(format!("read as {:?}", u)) }
                    let s = unix(w.0, w.1, w.2, w.3, w.4, w.5);
                    if u.get_unix_timestamp() != s { return Err(format!("converted to {} instead of {}", u.get_unix_timestamp(), s)) }
                    Ok(())
                }
            }
        });
    }
    for y in 0..100 { for m in 1..=12 { for d in 1..=31 { one(c, &format!("{:02}{:02}{:02}{}Z", y, m, d, if d % 2 == 0 { "000000" } else { "235959" })) } } }
    for m in [0, 13, 20, 99] { one(c, &format!("24{:02}01000000Z", m)) }
    for d in [0, 32, 40, 99] { for m in 1..=12 { one(c, &format!("24{:02}{:02}000000Z", m, d)) } }
    for h in 0..100 { one(c, &format!("240229{:02}0000Z", h)); one(c, &format!("24022900{:02}00Z", h)); one(c, &format!("2402290000{:02}Z", h)) }
    for i in 0..13 { for ch in (0..128u8).map(|x| x as char).chain(['\u{e9}', '\u{663}', '\u{20ac}']) { let mut t: Vec<char> = "240229123456Z".chars().collect(); t[i] = ch; let s: String = t.iter().collect(); one(c, &s); if s.len() > 13 { let mut k = t.clone(); k.remove((i + 1) % 13); one(c, &k.iter().collect::<String>()); k.remove(0); one(c, &k.iter().collect::<String>()) } } }
    for t in ["", "Z", "2402291234Z", "240229123456", "240229123456Z0", "20240229123456Z", "240229123456+0000", "240229123456z", " 40229123456Z", "-10229123456Z", "\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}Z"] { one(c, t) }
    let now = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs();
    let mk = |t: u64| { let (mut y, mut r) = (1970u64, t); loop { let n = if leap(y) { 366 } else { 365 } * 86400; if r < n { break } r -= n; y += 1 } let mut m = 1; while r >= mlen(y, m) * 86400 { r -= mlen(y, m) * 86400; m += 1 } UtcTime { year: y as u16, month: m as u16, day: (r / 86400 + 1) as u16, hour: (r / 3600 % 24) as u16, minute: (r / 60 % 60) as u16, second: (r % 60) as u16 } };
    let offs: Vec<i64> = vec![-86400 * 3000, -86400 * 366, -86400 * 31, -86400, -3600, -120, 120, 3600, 86400, 86400 * 31, 86400 * 366, 86400 * 3000];
    for a in offs.iter() { for b in offs.iter() {
        let (x, y) = ((now as i64 + a) as u64, (now as i64 + b) as u64);
        c.case("validity", &|| format!("from now{:+} s to now{:+} s", a, b), || { let w = *a < 0 && *b > 0; if vx_validity(Some(mk(x)), Some(mk(y))) == w { Ok(()) } else { Err(format!("reported as {}", if w { "outside" } else { "inside" })) } });
    } }
    // to the second: both ends belong to the validity
    for a in -3i64..=3 { for b in -3i64..=3 {
        c.case("validity", &|| format!("from now{:+} s to now{:+} s", a, b), || {
            let clock = || std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs();
            for _ in 0..5 { let t = clock(); let r = vx_validity(Some(mk((t as i64 + a) as u64)), Some(mk((t as i64 + b) as u64))); if clock() != t { continue } let w = a <= 0 && b >= 0; return if r == w { Ok(()) } else { Err(format!("reported as {}", if w { "outside" } else { "inside" })) } }
            Ok(())
        });
    } }
    // and as a certificate carries them
    let ca = key(1);
    for (f, t, w) in [("000101000000Z", "491231235959Z", true), ("000101000000Z", "010101000000Z", false), ("481231000000Z", "491231235959Z", false), ("500101000000Z", "491231235959Z", true), ("990101000000Z", "480229000000Z", true)] {
        let d = finish(&tbs("x", &ca.q, f, t, OID_ES256), OID_ES256, &refs::der_sig(&IBig::from(1), &IBig::from(1)));
        c.case("validity of a certificate", &|| format!("{} to {}", f, t), || { let x = X509::from_raw(&d).map_err(|e| format!("{:?}", e))?; if x.tbs_certificate.validity.is_valid() == w { Ok(()) } else { Err(format!("reported as {}", !w)) } });
    }
    while c.go() {
        let t: String = (0..12).map(|_| (b'0' + c.rng.below(10) as u8) as char).collect::<String>() + "Z"; one(c, &t);
        let v = [c.rng.below(100), 1 + c.rng.below(12), 1 + c.rng.below(31), c.rng.below(25), c.rng.below(61), c.rng.below(61)];
        one(c, &format!("{:02}{:02}{:02}{:02}{:02}{:02}Z", v[0], v[1], v[2], v[3], v[4], v[5]));
    }
}

// ------------------------------------------------------------------ P24
fn signed_case(c: &mut Ctx, ca: &[u8], leaf: &[u8], want: bool, what: &str) {
    c.case("signed by", &|| format!("{}: issuer={} certificate={}", what, hex(ca), hex(leaf)), || {
        let a = match Certificate::from_raw_x509(ca.to_vec()) { Ok(a) => a, Err(e) => return if want { Err(format!("issuer refused: {:?}", e)) } else { Ok(()) } };
        let b = match Certificate::from_raw_x509(leaf.to_vec()) { Ok(a) => a, Err(e) => return if want { Err(format!("certificate refused: {:?}", e)) } else { Ok(()) } };
        match a.has_signed(&b) { Ok(()) => if want { Ok(()) } else { Err("accepted".into()) }, Err(e) => if want { Err(format!("refused: {:?}", e)) } else { Ok(()) } }
    });
}
pub fn p24(c: &mut Ctx) {
    let (ca, other, leafk) = (key(1), key(7), key(2));
    let cac = cert("CA", &ca.q, &ca);
    let otc = cert("CA", &other.q, &other);
    let leaf = cert("leaf", &leafk.q, &ca);
    signed_case(c, &cac, &leaf, true, "signed");
    signed_case(c, &cac, &cac, true, "self-signed");
    signed_case(c, &otc, &leaf, false, "another issuer's key");
    signed_case(c, &leaf, &cac, false, "the other way round");
    // copies of a certificate with one bit changed, in the signed part or in the signature
    for x in [&cac, &leaf] {
        let n = x.len(); let hl = |i: usize| if x[i] < 128 { (2, x[i] as usize) } else if x[i] == 0x81 { (3, x[i + 1] as usize) } else { (4, x[i + 1] as usize * 256 + x[i + 2] as usize) };
        let t0 = hl(1).0; let tlen = hl(t0 + 1).0 + hl(t0 + 1).1;
        for i in (t0..t0 + tlen).step_by(3).chain(n - 30..n) { let mut y = x.clone(); y[i] ^= 1 << (i % 8); signed_case(c, &cac, &y, false, "one bit changed"); signed_case(c, x, &y, false, "one bit changed"); if !c.ok() { return } }
    }
    let t = tbs("leaf", &leafk.q, "000101000000Z", "491231235959Z", OID_ES256);
    let h = refs::sha256(&t);
    let n = refs::p256().n.clone();
    for k in 1..8u64 {
        let (r, s) = sign(&ca.d, &h, k);
        signed_case(c, &cac, &finish(&t, OID_ES256, &refs::der_sig(&r, &s)), true, "signed");
        signed_case(c, &cac, &finish(&t, OID_ES256, &refs::der_sig(&r, &(&n - &s))), true, "the other root");
        for (a, b) in [(&s, &r), (&r, &(&s + &n)), (&(&r + &n), &s), (&r, &(&s + IBig::from(1))), (&r, &r), (&IBig::from(0), &s), (&r, &IBig::from(0)), (&IBig::from(0), &IBig::from(0)), (&n, &s), (&r, &n)] { signed_case(c, &cac, &finish(&t, OID_ES256, &refs::der_sig(a, b)), false, "other numbers") }
        // signed over other bytes than the whole to-be-signed part
        for part in [&t[1..], &t[4..], &t[..t.len() - 1], &cac[4..], &leaf[..]] { let (r, s) = sign(&ca.d, &refs::sha256(part), k); signed_case(c, &cac, &finish(&t, OID_ES256, &refs::der_sig(&r, &s)), false, "signature over other bytes") }
        // the algorithm it names is not the one that was used, or is not supported
        signed_case(c, &cac, &finish(&t, OID_ES384, &refs::der_sig(&r, &s)), false, "names ecdsaWithSHA384, is over SHA-256");
        let t3 = tbs("leaf", &leafk.q, "000101000000Z", "491231235959Z", OID_ES384);
        let (r3, s3) = sign(&ca.d, &refs::sha256(&t3), k);
        signed_case(c, &cac, &finish(&t3, OID_ES384, &refs::der_sig(&r3, &s3)), false, "names ecdsaWithSHA384 twice, is over SHA-256");
        signed_case(c, &cac, &finish(&t, OID_EC, &refs::der_sig(&r, &s)), false, "names a key type");
        // identifiers whose bytes contain those of a known one
        for (x, y) in [(&[0u8][..], &[][..]), (&[0; 2], &[]), (&[0; 8], &[]), (&[0; 8], &[1]), (&[0; 8], &[1, 2, 3]), (&[0; 9], &[]), (&[], &[0]), (&[1], &[]), (&[0x2a], &[])] {
            let id = [x, OID_ES256, y].concat();
            signed_case(c, &cac, &finish(&t, &id, &refs::der_sig(&r, &s)), false, "names an unknown algorithm");
        }
        signed_case(c, &cac, &finish(&t, &[0x2a, 0x86, 0x48, 0x86, 0xf7, 0xd, 1, 1, 0xb], &refs::der_sig(&r, &s)), false, "names RSA");
        for sig in [vec![], vec![0x30, 0], refs::der_tlv(0x30, &refs::der_uint(&r)), { let mut x = refs::der_uint(&r); x.extend(refs::der_uint(&s)); x }, refs::der_tlv(4, &refs::der_sig(&r, &s)), refs::der_tlv(0x30, &[refs::der_uint(&r), refs::der_uint(&IBig::from(5)), refs::der_uint(&s)].concat())] { signed_case(c, &cac, &finish(&t, OID_ES256, &sig), false, "malformed signature") }
        signed_case(c, &cac, &seq(&[t.clone(), seq(&[refs::der_tlv(6, OID_ES256)]), refs::der_uint(&r), refs::der_uint(&s)]), false, "no signature, two numbers in its place");
        signed_case(c, &cac, &seq(&[t.clone(), seq(&[refs::der_tlv(6, OID_ES256), refs::der_uint(&r)]), refs::der_tlv(3, &[&[0u8][..], &refs::der_tlv(0x30, &refs::der_uint(&s))].concat())]), false, "one number outside the signature");
        signed_case(c, &cac, &seq(&[t.clone(), seq(&[refs::der_tlv(6, OID_ES256)]), refs::der_tlv(3, &[&[0u8][..], &refs::der_sig(&r, &s), &refs::der_sig(&r, &s)].concat())]), false, "two signatures");
    }
    // an issuer whose certificate holds no P-256 public key has signed nothing
    {
        let (pt, ec, p256) = (point(&ca.q), refs::der_tlv(6, OID_EC), refs::der_tlv(6, OID_P256));
        let issuer = |alg: Vec<Vec<u8>>, bits: &[u8]| {
            let t = seq(&[refs::der_tlv(0xa0, &refs::der_tlv(2, &[2])), refs::der_tlv(2, &[5]), seq(&[refs::der_tlv(6, OID_ES256)]), name("CA"),
                seq(&[refs::der_tlv(0x17, b"000101000000Z"), refs::der_tlv(0x17, b"491231235959Z")]), name("CA"),
                seq(&[seq(&alg), refs::der_tlv(3, &[&[0u8][..], bits].concat())])]);
            let (r, s) = sign(&ca.d, &refs::sha256(&t), 11);
            finish(&t, OID_ES256, &refs::der_sig(&r, &s))
        };
        let good = vec![ec.clone(), p256.clone()];
        let bits = if pt[0] == 0 { &pt[1..] } else { &pt[..] };
        signed_case(c, &issuer(good.clone(), bits), &leaf, true, "signed");
        for p in [0u8, 1, 5, 8, 0x0c, 0x14, 0x24, 0x44, 0x84, 0xff] { let mut b = bits.to_vec(); b[0] = p; signed_case(c, &issuer(good.clone(), &b), &leaf, false, "the issuer's key is no point: first byte") }
        for b in [bits[1..].to_vec(), bits[..64].to_vec(), [bits, &[0]].concat(), [bits, bits].concat(), vec![4], vec![], [&[0], bits].concat(), [&bits[..1], &[0], &bits[1..]].concat()] { signed_case(c, &issuer(good.clone(), &b), &leaf, false, "the issuer's key is no point: length") }
        let mut off = bits.to_vec(); off[64] ^= 1; signed_case(c, &issuer(good.clone(), &off), &leaf, false, "the issuer's key is not on the curve");
        for alg in [vec![ec.clone()], vec![p256.clone()], vec![p256.clone(), ec.clone()], vec![refs::der_tlv(6, &[0x2a, 0x86, 0x48, 0x86, 0xf7, 0xd, 1, 1, 1]), p256.clone()], vec![refs::der_tlv(6, OID_ES256), p256.clone()], vec![ec.clone(), refs::der_tlv(6, &[0x2b, 0x81, 4, 0, 0x22])], vec![ec.clone(), refs::der_tlv(6, &[0x2b, 0x81, 4, 0, 0xa])], vec![ec.clone(), refs::der_tlv(6, OID_EC)]] {
            signed_case(c, &issuer(alg, bits), &leaf, false, "the issuer's key is of another kind");
        }
    }
    // what is not signed fills no field: an expired certificate stays expired, the subject stays the subject
    {
        let t = tbs("leaf", &leafk.q, "000101000000Z", "010101000000Z", OID_ES256);
        let (r, s) = sign(&ca.d, &refs::sha256(&t), 5);
        let alg = refs::der_tlv(6, OID_ES256); let sg = refs::der_sig(&r, &s);
        let cn = |n: &str| refs::der_tlv(0x31, &seq(&[refs::der_tlv(6, OID_CN), refs::der_tlv(12, n.as_bytes())]));
        for ex in [refs::der_tlv(0x17, b"491231235959Z"), cn("other"), name("other"), seq(&[refs::der_tlv(0x17, b"491231235959Z"), refs::der_tlv(0x17, b"491231235959Z")]), refs::der_tlv(0xa0, &refs::der_tlv(2, &[1])), refs::der_tlv(2, &[9]), refs::der_tlv(3, &point(&other.q)), seq(&[refs::der_tlv(6, OID_EC), refs::der_tlv(6, OID_P256)])] {
            let bit = |x: &[u8]| refs::der_tlv(3, &[&[0u8][..], x].concat());
            for l in [seq(&[t.clone(), ex.clone(), seq(&[alg.clone()]), bit(&sg)]), seq(&[t.clone(), seq(&[alg.clone(), ex.clone()]), bit(&sg)]), seq(&[t.clone(), seq(&[ex.clone(), alg.clone()]), bit(&sg)]), seq(&[t.clone(), seq(&[alg.clone()]), ex.clone(), bit(&sg)]), seq(&[t.clone(), seq(&[alg.clone()]), bit(&sg), ex.clone()]), seq(&[t.clone(), seq(&[alg.clone()]), bit(&refs::der_tlv(0x30, &[refs::der_uint(&r), refs::der_uint(&s), ex.clone()].concat()))]), seq(&[t.clone(), seq(&[alg.clone()]), bit(&[sg.clone(), ex.clone()].concat())]), [seq(&[t.clone(), seq(&[alg.clone()]), bit(&sg)]), ex.clone()].concat()] {
                c.case("unsigned content", &|| format!("issuer={} certificate={}", hex(&cac), hex(&l)), || {
                    let (a, b) = match (Certificate::from_raw_x509(cac.clone()), Certificate::from_raw_x509(l.clone())) { (Ok(a), Ok(b)) => (a, b), _ => return Ok(()) };
                    if a.has_signed(&b).is_err() { return Ok(()) }
                    let x = X509::from_raw(&l).map_err(|e| format!("{:?}", e))?;
                    if x.tbs_certificate.validity.is_valid() { return Err("an unsigned date makes the expired certificate valid".into()) }
                    if x.tbs_certificate.subject.get("commonName").ok().as_deref() != Some("leaf") || x.tbs_certificate.issuer.get("commonName").ok().as_deref() != Some("CA") { return Err("an unsigned name replaces the signed one".into()) }
                    if x.tbs_certificate.serial_number != IBig::from(5) { return Err("an unsigned serial number".into()) }
                    match x.get_public_key() { Some(k) if Some((k.point.x.clone(), k.point.y.clone())) == leafk.q => Ok(()), _ => Err("an unsigned public key".into()) }
                });
            }
        }
    }
    // signed parts of other lengths, up to those of several length bytes
    for l in [1usize, 2, 60, 100, 120, 127, 128, 130, 255, 256, 300, 400, 700, 1000, 2100, 5000, 66000] {
        let subject: String = (0..l).map(|i| (b'a' + (i % 26) as u8) as char).collect();
        let big = cert(&subject, &leafk.q, &ca);
        signed_case(c, &cac, &big, true, "signed, long or short");
        // (the altered certificate is well formed: letters of the name, or the key's last bytes)
        let at = big.windows(4).position(|w| w == b"abcd").unwrap_or(0);
        let end = at + l;
        let mut pos = vec![big.windows(3).rposition(|w| w == &OID_P256[..3]).unwrap_or(0) + 8 + 3 + 64];
        if at > 0 && l > 8 { pos.extend([at + 1, at + l / 2, end - 1, end - 5, at + c.rng.below(l), at + c.rng.below(l), at + c.rng.below(l)]) }
        for i in pos { if i >= big.len() { continue } let mut b = big.clone(); b[i] ^= 2; signed_case(c, &cac, &b, false, "one bit of the signed part changed") }
        // a root and what resembles it: other keys under the same names, and single bits
        let (root, twin) = (cert(&subject, &ca.q, &ca), cert(&subject, &other.q, &other));
        signed_case(c, &root, &root, true, "self-signed, long or short");
        signed_case(c, &root, &twin, false, "same names, another key");
        signed_case(c, &twin, &root, false, "same names, another key");
        for i in [root.len() / 2, root.len() - 1, root.len() - 40, root.len() - 90] { let mut b = root.clone(); b[i] ^= 2; signed_case(c, &root, &b, false, "one bit of a self-signed certificate changed") }
    }
    // every byte of the signed part matters, and every byte of the numbers
    let start = { let hl = leaf.len() - tlv(&leaf).unwrap().1.len(); hl };
    for i in 0..t.len() { for x in [1u8, 0x80] { let mut b = leaf.clone(); b[start + i] ^= x; if c.thorough || i % 2 == (x & 1) as usize || i < 40 { signed_case(c, &cac, &b, false, "one bit of the signed part changed") } } }
    for i in leaf.len() - 64..leaf.len() { let mut b = leaf.clone(); b[i] ^= 4; if !b[leaf.len() - 72..].windows(2).any(|_| false) { signed_case(c, &cac, &b, false, "one bit of the signature changed") } }
    // extra numbers inside the signed part do not stand in for the signature
    {
        let k = refs::be_int(&refs::sha256(b"k"));
        let r = refs::md(refs::ec_mul(&k, &refs::ec_g()).unwrap().0, &n);
        let ext = |v: &IBig| refs::der_uint(v);
        let base = |extra: Vec<u8>| { let body = tlv(&t).unwrap().1.to_vec(); let mut x = body; x.extend(extra); refs::der_tlv(0x30, &x) };
        let t2 = base(ext(&r));
        let z = refs::be_int(&refs::sha256(&t2));
        let s = refs::md(refs::minv(&k, &n) * (z + &r * &ca.d), &n);
        signed_case(c, &cac, &finish(&t2, OID_ES256, &refs::der_sig(&IBig::from(5), &s)), false, "the right r stands inside the signed part, another in the signature");
        let t3 = base(refs::der_tlv(6, OID_ES256));
        let (r3, s3) = sign(&ca.d, &refs::sha256(&t3), 9);
        signed_case(c, &cac, &finish(&t3, OID_ES384, &refs::der_sig(&r3, &s3)), false, "names SHA-256 inside the signed part and SHA-384 outside");
    }
    let mut i = 0u64;
    while c.go() {
        i += 1;
        let (a, b) = (key(100 + c.rng.below(50) as u64), key(200 + i % 40));
        let acert = cert("CA", &a.q, &a);
        let mut l = cert(&format!("leaf{}", i), &b.q, &a);
        signed_case(c, &acert, &l, true, "signed");
        let total = l.len();
        let k = c.rng.below(total - 20) + 4;
        if !(l[k] == 0x30 || k < 8) { let bit = 1 << c.rng.below(8); l[k] ^= bit; let outside = k >= start + tlv(&l[start..]).map(|x| x.2).unwrap_or(0); let _ = outside; signed_case(c, &acert, &l, false, "one bit changed"); }
    }
}

// ------------------------------------------------------------------ P25
fn small(n: usize) -> usize { n }
pub fn p25(c: &mut Ctx) {
    for n in (0..300usize).chain([511, 512, 1000, 4096, 65536]) {
        c.case("bytes", &|| format!("URandomRng bytes({})", n), || { let l = URandomRng::new().bytes(n).len(); if l == n { Ok(()) } else { Err(format!("{} bytes", l)) } });
        for seed in [0u64, 1, 255, 256, u32::MAX as u64, u64::MAX] {
            c.case("bytes", &|| format!("SimpleRng<u32>({}) bytes({})", seed as u32, n), || { let l = SimpleRng::<u32>::from_seed(seed as u32).bytes(n).len(); if l == n { Ok(()) } else { Err(format!("{} bytes", l)) } });
            if n < 600 { c.case("bytes", &|| format!("SimpleRng<IBig>({}) bytes({})", seed, n), || { let l = SimpleRng::<IBig>::from_seed(IBig::from(seed)).bytes(n).len(); if l == n { Ok(()) } else { Err(format!("{} bytes", l)) } }) }
        }
    }
    fn fits(x: &IBig, b: usize) -> Result<(), String> { if *x < IBig::from(0) || *x >= (IBig::from(1) << (8 * b)) { Err(format!("{:x} needs more than {} bytes or is negative", x, b)) } else { Ok(()) } }
    for b in 1..=40usize { for a in 0..b {
        c.case("between", &|| format!("URandomRng between({}, {})", a, b), || { let mut r = URandomRng::new(); for _ in 0..if b == 1 { 3000 } else { 4 } { fits(&RngCore::<IBig>::between(&mut r, a, b), b)? } Ok(()) });
        c.case("between", &|| format!("SimpleRng<IBig> between({}, {})", a, b), || { for s in 0..if b - a == 1 { 150u64 } else { 8 } { let mut r = SimpleRng::<IBig>::from_seed(IBig::from(s * s * 977) << (32 * (s as usize % 8))); for _ in 0..4 { fits(&r.between(a, b), b)? } } Ok(()) });
        c.case("between", &|| format!("SimpleRng<u32> between({}, {})", a, b), || { let mut r = SimpleRng::<u32>::from_seed((a * 31 + b) as u32); for _ in 0..200 { let v = r.between(a, b); if (v as usize) < a || v as usize >= b { return Err(format!("{}", v)) } } Ok(()) });
    } }
    for (a, b) in [(0usize, 1usize), (0, u32::MAX as usize), (u32::MAX as usize - 1, u32::MAX as usize), (1, u32::MAX as usize), (1 << 31, (1 << 31) + 1)] { c.case("between", &|| format!("SimpleRng<u32> between({}, {})", a, b), || { let mut r = SimpleRng::<u32>::from_seed(9); for _ in 0..3000 { let v = r.between(a, b); if (v as usize) < a || v as usize >= b { return Err(format!("{}", v)) } } Ok(()) }) }
    while c.go() {
        let seed = c.rng.u64();
        let ops: Vec<(usize, usize, usize)> = (0..1 + c.rng.below(8)).map(|_| { let b = 1 + c.rng.below(40); (c.rng.below(2), c.rng.below(b), b) }).collect();
        c.case("seeded generators", &|| format!("seed={} requests={:?}", seed, ops), || {
            let (mut a, mut b) = (SimpleRng::<IBig>::from_seed(IBig::from(seed)), SimpleRng::<IBig>::from_seed(IBig::from(seed)));
            let (mut x, mut y) = (SimpleRng::<u32>::from_seed(seed as u32), SimpleRng::<u32>::from_seed(seed as u32));
            for (k, lo, hi) in &ops {
                if *k == 0 {
                    let (p, q) = (a.bytes(*hi), b.bytes(*hi)); if p != q { return Err("same seed and requests, other bytes".into()) } if p.len() != *hi { return Err(format!("{} bytes for {}", p.len(), hi)) }
                    let (p, q) = (x.bytes(*hi), y.bytes(*hi)); if p != q { return Err("same seed and requests, other bytes (u32)".into()) } if p.len() != *hi { return Err(format!("{} bytes for {} (u32)", p.len(), hi)) }
                } else {
                    let (p, q) = (a.between(*lo, *hi), b.between(*lo, *hi)); if p != q { return Err("same seed and requests, other number".into()) } fits(&p, *hi)?;
                    let (p, q) = (x.between(*lo, *hi), y.between(*lo, *hi)); if p != q { return Err("same seed and requests, other number (u32)".into()) } if (p as usize) < *lo || p as usize >= *hi { return Err(format!("{} is not in {}..{}", p, lo, hi)) }
                }
            }
            Ok(())
        });
        let n = small(c.rng.below(700));
        c.case("bytes", &|| format!("URandomRng bytes({})", n), || { let l = URandomRng::new().bytes(n).len(); if l == n { Ok(()) } else { Err(format!("{} bytes", l)) } });
    }
    let _ = bytes::to_hex(&[]);
}
