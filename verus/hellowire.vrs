//@include head.inc
//@include slice_len.inc
//@item net/alert.rs enum TlsError nodisc derive=PartialEq,Eq,Structural,Clone,Copy
//@item crypto/ciphersuite.rs enum CipherSuite derive=PartialEq,Eq,Structural,Clone,Copy
//@item net/extensions/named_groups.rs enum NamedGroup derive=PartialEq,Eq,Structural,Clone,Copy
//@item net/extensions/shared.rs enum ExtensionType derive=PartialEq,Eq,Structural,Clone,Copy
//@item net/extensions/signature_algorithm.rs enum SignatureScheme derive=PartialEq,Eq,Structural,Clone,Copy
//@item net/extensions/signature_algorithm.rs struct SignatureAlgorithms
//@item net/extensions/key_share.rs struct KeyShareEntry
//@item net/extensions/key_share.rs struct KeyShare
//@include text.inc
//@item net/extensions/server_name.rs struct ServerName `String` => `Text`
//@item net/extensions/supported_groups.rs struct SupportedGroups
//@item net/extensions/supported_versions.rs struct SupportedVersions
//@item net/extensions/client.rs enum ClientExtension
//@item net/extensions/server.rs enum ServerExtension
//@item net/extensions/shared.rs struct Extensions `<T: ExtensionWrapper>` => `<T>`
type ClientExtensions = Extensions<ClientExtension>;
type ServerExtensions = Extensions<ServerExtension>;
//@item net/client/client_hello.rs struct ClientHello
//@item net/server/server_hello.rs struct ServerHello
/// `buf[a..b].try_into().unwrap()` of a byte slice into a byte slice: the slice itself
fn vx_sub(b: &[u8], a: usize, e: usize) -> (r: &[u8]) requires a <= e <= b@.len(), ensures r@ == b@.subrange(a as int, e as int), { &b[a..e] }
#[verifier::external_body]
fn slice_to_arr32(v: &[u8]) -> (r: [u8; 32]) requires v@.len() == 32, ensures r@ == v@, { unimplemented!() }
/// `todo!()`: never reached
fn vx_todo() requires false, { }
// ---- numbers on the wire ----
pub open spec fn be16(n: int) -> Seq<u8> { seq![((n / 256) % 256) as u8, (n % 256) as u8] }
pub open spec fn be16_at(b: Seq<u8>, i: int) -> int { b[i] as int * 256 + b[i + 1] as int }
pub open spec fn rev(s: Seq<u8>) -> Seq<u8> { Seq::new(s.len(), |i: int| s[s.len() - 1 - i]) }
proof fn lemma_bits()
    ensures
        forall|a: u8, b: u8| #[trigger] (((a as usize) << 8) | (b as usize)) == a as int * 256 + b as int,
        forall|a: u8, b: u8| #[trigger] (((a as u16) << 8) | (b as u16)) == a as int * 256 + b as int,
        forall|x: usize| #[trigger] ((x >> 8) as u8) == (x / 256) % 256, forall|x: usize| #[trigger] (x as u8) == x % 256,
        forall|x: u16| #[trigger] ((x >> 8) as u8) == (x / 256) % 256, forall|x: u16| #[trigger] (x as u8) == x % 256,
{
    assert forall|a: u8, b: u8| #[trigger] (((a as usize) << 8) | (b as usize)) == a as int * 256 + b as int by { assert((((a as usize) << 8usize) | (b as usize)) == (a as usize * 256 + b as usize) as usize) by(bit_vector); }
    assert forall|a: u8, b: u8| #[trigger] (((a as u16) << 8) | (b as u16)) == a as int * 256 + b as int by { assert((((a as u16) << 8u16) | (b as u16)) == (a as u16 * 256 + b as u16) as u16) by(bit_vector); }
    assert forall|x: usize| #[trigger] ((x >> 8) as u8) == (x / 256) % 256 by { assert(((x >> 8usize) as u8) == (x / 256) % 256) by(bit_vector); }
    assert forall|x: usize| #[trigger] (x as u8) == x % 256 by { assert((x as u8) == x % 256) by(bit_vector); }
    assert forall|x: u16| #[trigger] ((x >> 8) as u8) == (x / 256) % 256 by { assert(((x >> 8u16) as u8) == (x / 256) % 256) by(bit_vector); }
    assert forall|x: u16| #[trigger] (x as u8) == x % 256 by { assert((x as u8) == x % 256) by(bit_vector); }
}
// ---- what the code points stand for ----
pub open spec fn suite_num(c: CipherSuite) -> int { match c { CipherSuite::TLS_AES_256_GCM_SHA384 => 0x1302, CipherSuite::TLS_CHACHA20_POLY1305_SHA256 => 0x1303, CipherSuite::TLS_AES_128_GCM_SHA256 => 0x1301, CipherSuite::TLS_EMPTY_RENEGOTIATION_INFO_SCSV => 0xff } }
pub open spec fn suite_of(n: int) -> Option<CipherSuite> {
    if n == 0x1302 { Some(CipherSuite::TLS_AES_256_GCM_SHA384) } else if n == 0x1303 { Some(CipherSuite::TLS_CHACHA20_POLY1305_SHA256) }
    else if n == 0x1301 { Some(CipherSuite::TLS_AES_128_GCM_SHA256) } else if n == 0xff { Some(CipherSuite::TLS_EMPTY_RENEGOTIATION_INFO_SCSV) } else { None }
}
pub open spec fn group_of(n: int) -> Option<NamedGroup> {
    if n == 0x17 { Some(NamedGroup::Secp256r1) } else if n == 0x18 { Some(NamedGroup::Secp384r1) } else if n == 0x19 { Some(NamedGroup::Secp521r1) }
    else if n == 0x1d { Some(NamedGroup::X25519) } else if n == 0x1e { Some(NamedGroup::X448) }
    else if n == 0x100 { Some(NamedGroup::Ffdhe2048) } else if n == 0x101 { Some(NamedGroup::Ffdhe3072) } else if n == 0x102 { Some(NamedGroup::Ffdhe4096) }
    else if n == 0x103 { Some(NamedGroup::Ffdhe6144) } else if n == 0x104 { Some(NamedGroup::Ffdhe8192) } else { None }
}
pub open spec fn group_num(g: NamedGroup) -> int { match g { NamedGroup::Secp256r1 => 0x17, NamedGroup::Secp384r1 => 0x18, NamedGroup::Secp521r1 => 0x19, NamedGroup::X25519 => 0x1d, NamedGroup::X448 => 0x1e,
    NamedGroup::Ffdhe2048 => 0x100, NamedGroup::Ffdhe3072 => 0x101, NamedGroup::Ffdhe4096 => 0x102, NamedGroup::Ffdhe6144 => 0x103, NamedGroup::Ffdhe8192 => 0x104 } }
pub open spec fn scheme_num(s: SignatureScheme) -> int { match s { SignatureScheme::ecdsa_secp256r1_sha256 => 0x403, SignatureScheme::ecdsa_secp384r1_sha384 => 0x503, SignatureScheme::ecdsa_secp521r1_sha512 => 0x603 } }
// ---- extensions ----
pub struct Share { pub group: NamedGroup, pub key: Seq<u8> }
/// an extension: versions (1.3 among them or not), shares, name, algorithms, groups
pub enum Ext { Sv(bool), Ks(Seq<Share>), Sn(Seq<u8>), Sa(Seq<SignatureScheme>), Sg(Seq<NamedGroup>) }
spec fn share_v(e: KeyShareEntry) -> Share { Share { group: e.group, key: e.opaque@ } }
spec fn shares_v(s: Seq<KeyShareEntry>) -> Seq<Share> { s.map_values(|e: KeyShareEntry| share_v(e)) }
spec fn cv(e: ClientExtension) -> Ext {
    match e { ClientExtension::SupportedVersion(v) => Ext::Sv(v.0), ClientExtension::KeyShare(k) => Ext::Ks(shares_v(k.0@)), ClientExtension::ServerName(n) => Ext::Sn(n.0.b()),
        ClientExtension::SignatureAlgorithms(a) => Ext::Sa(a.0@), ClientExtension::SupportedGroups(g) => Ext::Sg(g.0@) }
}
spec fn sv(e: ServerExtension) -> Ext {
    match e { ServerExtension::SupportedVersions(v) => Ext::Sv(v.0), ServerExtension::KeyShare(k) => Ext::Ks(shares_v(k.0@)), ServerExtension::SignatureAlgorithms(a) => Ext::Sa(a.0@) }
}
pub open spec fn ext_num(e: Ext) -> int { match e { Ext::Sv(_) => 0x2b, Ext::Ks(_) => 0x33, Ext::Sn(_) => 0, Ext::Sa(_) => 0xd, Ext::Sg(_) => 0xa } }
/// X25519: code point, 32 bytes, in reverse of how they are kept
pub open spec fn share_w(e: Share) -> Seq<u8> { seq![0u8, 0x1du8, 0u8, 0x20u8] + rev(e.key) }
pub open spec fn shares_w(s: Seq<Share>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else { be16(share_w(s[0]).len() as int) + share_w(s[0]) + shares_w(s.skip(1)) } }
pub open spec fn schemes_w(s: Seq<SignatureScheme>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else { be16(scheme_num(s[0])) + schemes_w(s.skip(1)) } }
pub open spec fn groups_w(s: Seq<NamedGroup>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else { be16(group_num(s[0])) + groups_w(s.skip(1)) } }
/// the body of an extension, written by the client or by the server
pub open spec fn body_w(e: Ext, client: bool) -> Seq<u8> {
    match e {
        Ext::Sv(_) => if client { seq![2u8, 3, 4] } else { seq![3u8, 4] },
        Ext::Ks(s) => if client { shares_w(s) } else if s.len() == 1 { share_w(s[0]) } else { Seq::empty() },
        Ext::Sn(n) => be16(n.len() as int + 3) + seq![0u8] + be16(n.len() as int) + n,
        Ext::Sa(s) => be16(2 * s.len() as int) + schemes_w(s),
        Ext::Sg(s) => be16(2 * s.len() as int) + groups_w(s),
    }
}
pub open spec fn ext_w(e: Ext, client: bool) -> Seq<u8> { be16(ext_num(e)) + be16(body_w(e, client).len() as int) + body_w(e, client) }
pub open spec fn exts_w(s: Seq<Ext>, client: bool) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else { ext_w(s[0], client) + exts_w(s.skip(1), client) } }
/// an extension the code writes: X25519 shares only, few algorithms and groups
pub open spec fn writable(e: Ext, client: bool) -> bool {
    match e { Ext::Ks(s) => forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).group == NamedGroup::X25519, Ext::Sa(s) => s.len() <= 64, Ext::Sg(s) => client && s.len() <= 64, Ext::Sn(_) => true, Ext::Sv(_) => true }
}
/// the list of extensions with its length
pub open spec fn extlist_w(s: Seq<Ext>, client: bool) -> Seq<u8> { be16(exts_w(s, client).len() as int) + exts_w(s, client) }
// ---- reading ----
pub open spec fn share_read(b: Seq<u8>) -> Option<(int, Share)> {
    if b.len() < 4 { None } else { match group_of(be16_at(b, 0)) { None => None, Some(g) => { let n = be16_at(b, 2); if b.len() < 4 + n { None } else { Some((4 + n, Share { group: g, key: b.subrange(4, 4 + n) })) } } } }
}
/// the shares from c on, of a list of length len
pub open spec fn shares_from(b: Seq<u8>, c: int, len: int) -> Option<Seq<Share>> decreases b.len() - c {
    if c < 0 || c > b.len() { None } else {
        match share_read(b.skip(c)) {
            None => None,
            Some((n, e)) => if n <= 7 { Some(Seq::empty()) } else if c + n >= len { Some(seq![e]) } else { match shares_from(b, c + n, len) { None => None, Some(r) => Some(seq![e] + r) } },
        }
    }
}
pub open spec fn shares_read(b: Seq<u8>, client: bool) -> Option<Seq<Share>>
{ if client { shares_from(b, 0, 0) } else if b.len() < 2 { None } else { shares_from(b, 2, be16_at(b, 0)) } }
pub open spec fn versions_read(b: Seq<u8>, client: bool) -> Option<bool> {
    if client { if b.len() < 2 { None } else { Some(be16_at(b, 0) == 0x304) } }
    else if b.len() == 0 || b.len() < 1 + b[0] { None }
    else { Some(b[0] % 2 == 0 && exists|k: int| 0 <= k < b[0] as int / 2 && #[trigger] be16_at(b, 1 + 2 * k) == 0x304) }
}
pub open spec fn name_read(b: Seq<u8>) -> Option<Seq<u8>> {
    if b.len() < 2 { None } else if be16_at(b, 0) == 0 { Some(Seq::empty()) } else if b.len() < 5 || b[2] != 0 { None }
    else { let n = be16_at(b, 3); if b.len() < 5 + n || !utf8(b.subrange(5, 5 + n)) { None } else { Some(b.subrange(5, 5 + n)) } }
}
/// None: no; Some(None): not one the reader understands
pub open spec fn ext_read(ty: int, b: Seq<u8>, client: bool) -> Option<Option<Ext>> {
    if ty == 0x2b { match versions_read(b, client) { None => None, Some(v) => Some(Some(Ext::Sv(v))) } }
    else if ty == 0x33 { match shares_read(b, client) { None => None, Some(v) => Some(Some(Ext::Ks(v))) } }
    else if ty == 0 && !client { match name_read(b) { None => None, Some(v) => Some(Some(Ext::Sn(v))) } }
    else { Some(None) }
}
pub open spec fn front(e: Option<Option<Ext>>, r: Option<Seq<Ext>>) -> Option<Seq<Ext>>
{ match e { None => None, Some(h) => match r { None => None, Some(v) => match h { None => Some(v), Some(x) => Some(seq![x] + v) } } } }
pub open spec fn exts_read(b: Seq<u8>, client: bool) -> Option<Seq<Ext>> decreases b.len() {
    if b.len() == 0 { Some(Seq::empty()) } else if b.len() < 4 || b.len() < 4 + be16_at(b, 2) { None }
    else { let n = be16_at(b, 2); front(ext_read(be16_at(b, 0), b.subrange(4, 4 + n), client), exts_read(b.skip(4 + n), client)) }
}
pub open spec fn join(a: Seq<Ext>, r: Option<Seq<Ext>>) -> Option<Seq<Ext>> { match r { None => None, Some(v) => Some(a + v) } }
broadcast proof fn lemma_join(a: Seq<Ext>, x: Ext, v: Seq<Ext>) ensures #[trigger] (a.push(x) + v) == a + (seq![x] + v), { assert(a.push(x) + v =~= a + (seq![x] + v)); }
pub open spec fn joink(a: Seq<Share>, r: Option<Seq<Share>>) -> Option<Seq<Share>> { match r { None => None, Some(v) => Some(a + v) } }
broadcast proof fn lemma_joink(a: Seq<Share>, x: Share, v: Seq<Share>) ensures #[trigger] (a.push(x) + v) == a + (seq![x] + v), { assert(a.push(x) + v =~= a + (seq![x] + v)); }
spec fn cvs(s: Seq<ClientExtension>) -> Seq<Ext> { s.map_values(|e: ClientExtension| cv(e)) }
spec fn svs(s: Seq<ServerExtension>) -> Seq<Ext> { s.map_values(|e: ServerExtension| sv(e)) }
broadcast proof fn lemma_cvs(s: Seq<ClientExtension>, x: ClientExtension) ensures cvs(#[trigger] s.push(x)) == cvs(s).push(cv(x)), { assert(cvs(s.push(x)) =~= cvs(s).push(cv(x))); }
broadcast proof fn lemma_svs(s: Seq<ServerExtension>, x: ServerExtension) ensures svs(#[trigger] s.push(x)) == svs(s).push(sv(x)), { assert(svs(s.push(x)) =~= svs(s).push(sv(x))); }
broadcast proof fn lemma_shares_v(s: Seq<KeyShareEntry>, x: KeyShareEntry) ensures shares_v(#[trigger] s.push(x)) == shares_v(s).push(share_v(x)), { assert(shares_v(s.push(x)) =~= shares_v(s).push(share_v(x))); }
broadcast proof fn lemma_skip(b: Seq<u8>, c: int, n: int) requires 0 <= c, 0 <= n, c + n <= b.len(), ensures #![trigger b.skip(c).skip(n)] b.skip(c).skip(n) == b.skip(c + n), { assert(b.skip(c).skip(n) =~= b.skip(c + n)); }
broadcast proof fn lemma_skip_sub(b: Seq<u8>, c: int, i: int, j: int) requires 0 <= c, 0 <= i <= j, c + j <= b.len(), ensures #![trigger b.skip(c).subrange(i, j)] b.skip(c).subrange(i, j) == b.subrange(c + i, c + j), { assert(b.skip(c).subrange(i, j) =~= b.subrange(c + i, c + j)); }
#[allow(non_camel_case_types)]
struct bytes {}
impl bytes {
//@fn utils/bytes.rs fn to_u16
//@ret r
//@spec
    ensures buf@.len() >= 2 ==> r == be16_at(buf@, 0),
//@start
    proof { lemma_bits(); }
//@endfn
}
impl CipherSuite {
//@fn crypto/ciphersuite.rs impl CipherSuite :: fn new
//@ret r
//@spec
    ensures match suite_of(x as int) { Some(c) => r is Ok && r->Ok_0 == c, None => r is Err },
//@endfn
//@fn crypto/ciphersuite.rs impl CipherSuite :: fn as_u16
//@ret r
//@spec
    ensures r == suite_num(*self),
//@endfn
}
impl NamedGroup {
//@fn net/extensions/named_groups.rs impl NamedGroup :: fn new
//@ret r
//@spec
    ensures r == group_of(num as int),
//@endfn
}
impl ExtensionType {
//@fn net/extensions/shared.rs impl ExtensionType :: fn new
//@ret r
//@spec
    ensures r == if val == 0 { Some(ExtensionType::ServerName) } else if val == 0x2b { Some(ExtensionType::SupportedVersions) } else if val == 0x33 { Some(ExtensionType::KeyShare) } else { None },
//@endfn
}
impl KeyShareEntry {
//@fn net/extensions/key_share.rs impl KeyShareEntry :: fn parse
//@ret r
//@spec
    ensures match share_read(buf@) { Some((n, e)) => r is Ok && r->Ok_0.0 == n && share_v(r->Ok_0.1) == e, None => r is Err },
//@endfn
//@fn net/extensions/key_share.rs impl KeyShareEntry :: fn as_bytes
//@ret r
//@subst `todo!()` => `vx_todo()` opt
//@spec
    requires self.group == NamedGroup::X25519,
    ensures r@ == share_w(share_v(*self)),
//@loop 0
    invariant out@ == seq![0u8, 0x1du8, 0u8, 0x20u8] + rev(self.opaque@).take(i as int),
//@in 0 end
    proof { assert(rev(self.opaque@).take(i as int + 1) =~= rev(self.opaque@).take(i as int).push(self.opaque@[self.opaque@.len() - 1 - i])); assert(out@ =~= seq![0u8, 0x1du8, 0u8, 0x20u8] + rev(self.opaque@).take(i as int + 1)); }
//@end
    proof { assert(out@ =~= share_w(share_v(*self))); }
//@endfn
}
impl KeyShare {
//@fn net/extensions/key_share.rs impl KeyShare :: fn parse
//@ret r
//@spec
    ensures match shares_read(buf@, is_client) { Some(v) => r is Ok && shares_v(r->Ok_0.0@) == v, None => r is Err },
//@start
    broadcast use {lemma_joink, lemma_shares_v};
    proof { axiom_slice_len(buf); }
    let ghost all = shares_read(buf@, is_client);
//@loop 0
        invariant_except_break joink(shares_v(entries@), shares_from(buf@, consumed as int, len as int)) == all,
        invariant consumed <= buf@.len(), buf@.len() <= 0x7fff_ffff_ffff_ffff, all == shares_read(buf@, is_client),
        ensures Some(shares_v(entries@)) == all,
        decreases buf@.len() - consumed,
//@in 0 start
    broadcast use {lemma_joink, lemma_shares_v};
    proof { assert(buf@.skip(consumed as int) =~= buf@.subrange(consumed as int, buf@.len() as int)); assert(shares_v(entries@) + Seq::<Share>::empty() =~= shares_v(entries@)); assert forall|e: Share| #[trigger] (shares_v(entries@) + seq![e]) =~= shares_v(entries@).push(e) by {} }
//@endfn
//@fn net/extensions/key_share.rs impl Extension for KeyShare :: fn server_parse
//@ret r
//@spec
    ensures match shares_read(buf@, false) { Some(v) => r is Ok && shares_v(r->Ok_0.0@) == v, None => r is Err },
//@endfn
//@fn net/extensions/key_share.rs impl Extension for KeyShare :: fn client_parse
//@ret r
//@spec
    ensures match shares_read(buf@, true) { Some(v) => r is Ok && shares_v(r->Ok_0.0@) == v, None => r is Err },
//@endfn
//@fn net/extensions/key_share.rs impl Extension for KeyShare :: fn server_as_bytes
//@ret r
//@spec
    requires writable(Ext::Ks(shares_v(self.0@)), false),
    ensures r@ == ext_w(Ext::Ks(shares_v(self.0@)), false),
//@start
    proof { lemma_bits(); if self.0@.len() > 0 { assert(shares_v(self.0@)[0] == share_v(self.0@[0])); } }
//@end
    proof { assert(out@ =~= ext_w(Ext::Ks(shares_v(self.0@)), false)); }
//@endfn
//@fn net/extensions/key_share.rs impl Extension for KeyShare :: fn client_as_bytes
//@ret r
//@spec
    requires writable(Ext::Ks(shares_v(self.0@)), true),
    ensures r@ == ext_w(Ext::Ks(shares_v(self.0@)), true),
//@start
    proof { lemma_bits(); }
    let ghost sh = shares_v(self.0@);
    proof { assert(sh.skip(0) =~= sh); }
//@loop 0 it
    invariant it.seq().len() == self.0@.len(), forall|j: int| 0 <= j < it.seq().len() ==> *#[trigger] it.seq()[j] == self.0@[j],
        sh == shares_v(self.0@), writable(Ext::Ks(sh), true),
        out@ + shares_w(sh.skip(it.index() as int)) == seq![0u8, 0x33u8, 0u8, 0u8] + shares_w(sh),
        forall|x: usize| #[trigger] ((x >> 8) as u8) == (x / 256) % 256, forall|x: usize| #[trigger] (x as u8) == x % 256,
//@in 0 start
    let ghost o0 = out@; let ghost k0 = it.index() as int;
    proof { assert(*it.seq()[k0] == self.0@[k0]); assert(sh[k0] == share_v(self.0@[k0])); assert(sh.skip(k0).skip(1) =~= sh.skip(k0 + 1)); assert(sh.skip(k0)[0] == sh[k0]); }
//@in 0 end
    proof { assert(out@ =~= o0 + (be16(share_w(sh[k0]).len() as int) + share_w(sh[k0]))); assert(out@ + shares_w(sh.skip(k0 + 1)) =~= o0 + shares_w(sh.skip(k0))); }
//@after 0
    proof { assert(sh.skip(sh.len() as int) =~= Seq::<Share>::empty()); assert(out@ =~= seq![0u8, 0x33u8, 0u8, 0u8] + shares_w(sh)); }
//@end
    proof { assert(out@ =~= ext_w(Ext::Ks(sh), true)); }
//@endfn
}
impl SupportedVersions {
//@fn net/extensions/supported_versions.rs impl SupportedVersions :: fn new
//@ret r
//@spec
    ensures r.0 == tls13,
//@endfn
//@fn net/extensions/supported_versions.rs impl SupportedVersions :: fn is_tls13_supported
//@ret r
//@spec
    ensures r == self.0,
//@endfn
//@fn net/extensions/supported_versions.rs impl Extension for SupportedVersions :: fn server_parse
//@ret r
//@spec
    ensures match versions_read(buf@, false) { Some(v) => r is Ok && r->Ok_0.0 == v, None => r is Err },
//@loop 0 it
        invariant len == buf@[0], len % 2 == 0, buf@.len() >= 1 + len, it.seq().len() == len / 2,
            forall|k: int| 0 <= k < it.index() ==> #[trigger] be16_at(buf@, 1 + 2 * k) != 0x304,
//@in 0 start
    proof { assert(be16_at(buf@, 1 + 2 * it.index()) == be16_at(buf@.subrange(1 + 2 * it.index(), 3 + 2 * it.index()), 0)); }
//@endfn
//@fn net/extensions/supported_versions.rs impl Extension for SupportedVersions :: fn client_parse
//@ret r
//@spec
    ensures match versions_read(buf@, true) { Some(v) => r is Ok && r->Ok_0.0 == v, None => r is Err },
//@endfn
//@fn net/extensions/supported_versions.rs impl Extension for SupportedVersions :: fn server_as_bytes
//@ret r
//@spec
    ensures r@ == ext_w(Ext::Sv(self.0), false),
//@start
    proof { assert(ext_w(Ext::Sv(self.0), false) =~= seq![0u8, 0x2b, 0, 2, 3, 4]); }
//@endfn
//@fn net/extensions/supported_versions.rs impl Extension for SupportedVersions :: fn client_as_bytes
//@ret r
//@spec
    ensures r@ == ext_w(Ext::Sv(self.0), true),
//@start
    proof { assert(ext_w(Ext::Sv(self.0), true) =~= seq![0u8, 0x2b, 0, 3, 2, 3, 4]); }
//@endfn
}
impl SignatureAlgorithms {
    #[verifier::external_body] fn server_parse(buf: &[u8]) -> (r: Result<Self, TlsError>) { unimplemented!() }
    #[verifier::external_body] fn client_parse(buf: &[u8]) -> (r: Result<Self, TlsError>) { unimplemented!() }
//@fn net/extensions/signature_algorithm.rs impl SignatureAlgorithms :: fn new
//@ret r
//@spec
    ensures r.0@ == seq![scheme],
//@endfn
//@fn net/extensions/signature_algorithm.rs impl Extension for SignatureAlgorithms :: fn server_as_bytes
//@ret r
//@spec
    requires self.0@.len() <= 64,
    ensures r@ == ext_w(Ext::Sa(self.0@), false), r@ == ext_w(Ext::Sa(self.0@), true),
//@start
    proof { lemma_bits(); lemma_schemes_len(self.0@); assert(self.0@.skip(0) =~= self.0@); }
    let ghost hd = be16(0xd) + be16(2 + 2 * self.0@.len() as int) + be16(2 * self.0@.len() as int);
//@loop 0 it
    invariant it.seq().len() == self.0@.len(), forall|j: int| 0 <= j < it.seq().len() ==> *#[trigger] it.seq()[j] == self.0@[j],
        out@ + schemes_w(self.0@.skip(it.index() as int)) == hd + schemes_w(self.0@),
        forall|x: u16| #[trigger] ((x >> 8) as u8) == (x / 256) % 256, forall|x: u16| #[trigger] (x as u8) == x % 256,
//@in 0 start
    let ghost o0 = out@; let ghost k0 = it.index() as int;
    proof { assert(*it.seq()[k0] == self.0@[k0]); assert(self.0@.skip(k0).skip(1) =~= self.0@.skip(k0 + 1)); assert(self.0@.skip(k0)[0] == self.0@[k0]); }
//@in 0 end
    proof { assert(out@ =~= o0 + be16(scheme_num(self.0@[k0]))); assert(out@ + schemes_w(self.0@.skip(k0 + 1)) =~= o0 + schemes_w(self.0@.skip(k0))); }
//@after 0
    proof { assert(self.0@.skip(self.0@.len() as int) =~= Seq::<SignatureScheme>::empty()); assert(out@ =~= hd + schemes_w(self.0@)); assert(out@ =~= ext_w(Ext::Sa(self.0@), false)); assert(out@ =~= ext_w(Ext::Sa(self.0@), true)); }
//@endfn
//@fn net/extensions/shared.rs trait Extension :: fn client_as_bytes
//@ret r
//@spec
    requires self.0@.len() <= 64,
    ensures r@ == ext_w(Ext::Sa(self.0@), true),
//@endfn
}
proof fn lemma_schemes_len(s: Seq<SignatureScheme>) ensures schemes_w(s).len() == 2 * s.len(), decreases s.len() { if s.len() > 0 { lemma_schemes_len(s.skip(1)); } }
proof fn lemma_groups_len(s: Seq<NamedGroup>) ensures groups_w(s).len() == 2 * s.len(), decreases s.len() { if s.len() > 0 { lemma_groups_len(s.skip(1)); } }
impl SupportedGroups {
    #[verifier::external_body] fn server_parse(buf: &[u8]) -> (r: Result<Self, TlsError>) { unimplemented!() }
//@fn net/extensions/supported_groups.rs impl SupportedGroups :: fn supported
//@ret r
//@spec
    ensures r.0@.len() <= 64,
//@endfn
//@fn net/extensions/supported_groups.rs impl Extension for SupportedGroups :: fn server_as_bytes
//@subst `todo!("")` => `vx_todo(); Vec::new()` opt
//@spec
    requires false,
//@noprobe
//@endfn
//@fn net/extensions/supported_groups.rs impl Extension for SupportedGroups :: fn client_as_bytes
//@ret r
//@spec
    requires self.0@.len() <= 64,
    ensures r@ == ext_w(Ext::Sg(self.0@), true),
//@start
    proof { lemma_bits(); lemma_groups_len(self.0@); assert(self.0@.skip(0) =~= self.0@); }
    let ghost hd = be16(0xa) + be16(2 + 2 * self.0@.len() as int) + be16(2 * self.0@.len() as int);
//@loop 0 it
    invariant it.seq().len() == self.0@.len(), forall|j: int| 0 <= j < it.seq().len() ==> *#[trigger] it.seq()[j] == self.0@[j],
        out@ + groups_w(self.0@.skip(it.index() as int)) == hd + groups_w(self.0@),
        forall|x: u16| #[trigger] ((x >> 8) as u8) == (x / 256) % 256, forall|x: u16| #[trigger] (x as u8) == x % 256,
//@in 0 start
    let ghost o0 = out@; let ghost k0 = it.index() as int;
    proof { assert(*it.seq()[k0] == self.0@[k0]); assert(self.0@.skip(k0).skip(1) =~= self.0@.skip(k0 + 1)); assert(self.0@.skip(k0)[0] == self.0@[k0]); }
//@in 0 end
    proof { assert(out@ =~= o0 + be16(group_num(self.0@[k0]))); assert(out@ + groups_w(self.0@.skip(k0 + 1)) =~= o0 + groups_w(self.0@.skip(k0))); }
//@after 0
    proof { assert(self.0@.skip(self.0@.len() as int) =~= Seq::<NamedGroup>::empty()); assert(out@ =~= hd + groups_w(self.0@)); assert(out@ =~= ext_w(Ext::Sg(self.0@), true)); }
//@endfn
}
impl ServerName {
//@fn net/extensions/server_name.rs impl ServerName :: fn get
//@ret r
//@subst `&str` => `&Text`
//@spec
    ensures r.b() == self.0.b(),
//@endfn
//@fn net/extensions/server_name.rs impl Extension for ServerName :: fn server_parse
//@ret r
//@subst `String::` => `Text::` opt all
//@spec
    ensures match name_read(buf@) { Some(v) => r is Ok && r->Ok_0.0.b() == v, None => r is Err },
//@start
    proof { axiom_text(Seq::<u8>::empty()); }
//@endfn
//@fn net/extensions/server_name.rs impl Extension for ServerName :: fn server_as_bytes
//@ret r
//@spec
    ensures r@ == ext_w(Ext::Sn(self.0.b()), false), r@ == ext_w(Ext::Sn(self.0.b()), true),
//@start
    proof { lemma_bits(); }
//@end
    proof { assert(out@ =~= ext_w(Ext::Sn(self.0.b()), false)); assert(out@ =~= ext_w(Ext::Sn(self.0.b()), true)); }
//@endfn
//@fn net/extensions/shared.rs trait Extension :: fn client_as_bytes
//@ret r
//@spec
    ensures r@ == ext_w(Ext::Sn(self.0.b()), true),
//@endfn
}
/// a text with these bytes
proof fn axiom_text(b: Seq<u8>) { }
// ---- `get_extension()`, a `Box<&dyn Extension>` whose method is then called: the method of the variant ----
trait Wire {
    spec fn v(&self) -> Ext;
    fn client_bytes(&self) -> (r: Vec<u8>) requires writable(self.v(), true), ensures r@ == ext_w(self.v(), true);
    fn server_bytes(&self) -> (r: Vec<u8>) requires writable(self.v(), false), ensures r@ == ext_w(self.v(), false);
}
impl Wire for ClientExtension {
    spec fn v(&self) -> Ext { cv(*self) }
//@fn net/extensions/client.rs impl ExtensionWrapper for ClientExtension :: fn get_extension
//@subst `fn get_extension(&self) -> Box<&dyn Extension>` => `fn client_bytes(&self) -> Vec<u8>`
//@resub `Box::new\((\w+)\)` => `\1.client_as_bytes()`
//@endfn
//@fn net/extensions/client.rs impl ExtensionWrapper for ClientExtension :: fn get_extension
//@subst `fn get_extension(&self) -> Box<&dyn Extension>` => `fn server_bytes(&self) -> Vec<u8>`
//@resub `Box::new\((\w+)\)` => `\1.server_as_bytes()`
//@endfn
}
impl Wire for ServerExtension {
    spec fn v(&self) -> Ext { sv(*self) }
//@fn net/extensions/server.rs impl ExtensionWrapper for ServerExtension :: fn get_extension
//@subst `fn get_extension(&self) -> Box<&dyn Extension>` => `fn client_bytes(&self) -> Vec<u8>`
//@resub `Box::new\((\w+)\)` => `\1.client_as_bytes()`
//@endfn
//@fn net/extensions/server.rs impl ExtensionWrapper for ServerExtension :: fn get_extension
//@subst `fn get_extension(&self) -> Box<&dyn Extension>` => `fn server_bytes(&self) -> Vec<u8>`
//@resub `Box::new\((\w+)\)` => `\1.server_as_bytes()`
//@endfn
}
spec fn ws<T: Wire>(s: Seq<T>) -> Seq<Ext> { s.map_values(|e: T| e.v()) }
impl<T: Wire> Extensions<T> {
//@fn net/extensions/shared.rs impl Extensions<T> :: fn new
//@ret r
//@spec
    ensures r.extensions@.len() == 0, !r.is_client,
//@endfn
//@fn net/extensions/shared.rs impl Extensions<T> :: fn as_vec
//@ret r
//@spec
    ensures r@ == self.extensions@,
//@endfn
//@fn net/extensions/shared.rs impl Extensions<T> :: fn push
//@spec
    ensures final(self).extensions@ == old(self).extensions@.push(ext), final(self).is_client == old(self).is_client,
//@endfn
//@fn net/extensions/shared.rs impl Extensions<T> :: fn set_is_client
//@spec
    ensures final(self).extensions == old(self).extensions, final(self).is_client,
//@endfn
//@fn net/extensions/shared.rs impl Extensions<T> :: fn as_bytes
//@ret r
//@resub `(\w+)\.get_extension\(\)\.(client|server)_as_bytes\(\)` => `\1.\2_bytes()`
//@spec
    requires forall|i: int| 0 <= i < self.extensions@.len() ==> writable((#[trigger] self.extensions@[i]).v(), self.is_client),
    ensures r@ == extlist_w(ws(self.extensions@), self.is_client),
//@start
    proof { lemma_bits(); }
    let ghost es = ws(self.extensions@); let ghost c = self.is_client;
    proof { assert(es.skip(0) =~= es); if es.len() == 0 { assert(extlist_w(es, c) =~= seq![0u8, 0u8]); } }
//@loop 0 it
    invariant it.seq().len() == self.extensions@.len(), forall|j: int| 0 <= j < it.seq().len() ==> *#[trigger] it.seq()[j] == self.extensions@[j],
        forall|i: int| 0 <= i < self.extensions@.len() ==> writable((#[trigger] self.extensions@[i]).v(), self.is_client),
        es == ws(self.extensions@), c == self.is_client,
        out@ + exts_w(es.skip(it.index() as int), c) == seq![0u8, 0u8] + exts_w(es, c),
//@in 0 start
    let ghost o0 = out@; let ghost k0 = it.index() as int;
    proof { assert(*it.seq()[k0] == self.extensions@[k0]); assert(es[k0] == self.extensions@[k0].v()); assert(es.skip(k0).skip(1) =~= es.skip(k0 + 1)); assert(es.skip(k0)[0] == es[k0]); }
//@in 0 end
    proof { assert(out@ =~= o0 + ext_w(es[k0], c)); assert(out@ + exts_w(es.skip(k0 + 1), c) =~= o0 + exts_w(es.skip(k0), c)); }
//@after 0
    proof { assert(es.skip(es.len() as int) =~= Seq::<Ext>::empty()); assert(out@ =~= seq![0u8, 0u8] + exts_w(es, c)); }
//@end
    proof { assert(out@ =~= extlist_w(es, c)); }
//@endfn
}
spec fn wsc(s: Seq<ClientExtension>) -> bool { ws(s) == cvs(s) }
proof fn lemma_ws_c(s: Seq<ClientExtension>) ensures ws(s) == cvs(s), { assert(ws(s) =~= cvs(s)); }
proof fn lemma_ws_s(s: Seq<ServerExtension>) ensures ws(s) == svs(s), { assert(ws(s) =~= svs(s)); }
impl ClientExtension {
//@fn net/extensions/client.rs impl ClientExtension :: fn from_client_hello
//@ret r
//@spec
    ensures match exts_read(buf@, false) { Some(v) => r is Ok && cvs((r->Ok_0).extensions@) == v && !(r->Ok_0).is_client, None => r is Err },
//@start
    broadcast use {lemma_join, lemma_cvs, lemma_skip, lemma_skip_sub};
    proof { axiom_slice_len(buf); assert(buf@.skip(0) =~= buf@); assert(forall|v: Seq<Ext>| #[trigger] (Seq::<Ext>::empty() + v) =~= v); assert(forall|v: Seq<ClientExtension>| v.len() == 0 ==> #[trigger] cvs(v) =~= Seq::<Ext>::empty()); }
//@loop 0
        invariant consumed <= buf@.len(), buf@.len() <= 0x7fff_ffff_ffff_ffff, !extensions.is_client,
            join(cvs(extensions.extensions@), exts_read(buf@.skip(consumed as int), false)) == exts_read(buf@, false),
        decreases buf@.len() - consumed,
//@in 0 start
    broadcast use {lemma_join, lemma_cvs, lemma_skip, lemma_skip_sub};
    let ghost b0 = buf@.skip(consumed as int);
    proof { if b0.len() >= 4 { let n = be16_at(b0, 2); assert(be16_at(b0, 0) == be16_at(buf@, consumed as int)); assert(n == be16_at(buf@, consumed + 2)); } }
//@after 0
    proof { assert(cvs(extensions.extensions@) + Seq::<Ext>::empty() =~= cvs(extensions.extensions@)); }
//@endfn
}
impl ServerExtensions {
//@fn net/extensions/server.rs impl ServerExtensions :: fn from_server_hello
//@ret r
//@spec
    ensures match exts_read(buf@, true) { Some(v) => r is Ok && svs((r->Ok_0).extensions@) == v, None => r is Err },
//@start
    broadcast use {lemma_join, lemma_svs, lemma_skip, lemma_skip_sub};
    proof { axiom_slice_len(buf); assert(buf@.skip(0) =~= buf@); assert(forall|v: Seq<Ext>| #[trigger] (Seq::<Ext>::empty() + v) =~= v); assert(forall|v: Seq<ServerExtension>| v.len() == 0 ==> #[trigger] svs(v) =~= Seq::<Ext>::empty()); }
//@loop 0
        invariant consumed <= buf@.len(), buf@.len() <= 0x7fff_ffff_ffff_ffff,
            join(svs(extensions.extensions@), exts_read(buf@.skip(consumed as int), true)) == exts_read(buf@, true),
        decreases buf@.len() - consumed,
//@in 0 start
    broadcast use {lemma_join, lemma_svs, lemma_skip, lemma_skip_sub};
    let ghost b0 = buf@.skip(consumed as int);
    proof { if b0.len() >= 4 { let n = be16_at(b0, 2); assert(be16_at(b0, 0) == be16_at(buf@, consumed as int)); assert(n == be16_at(buf@, consumed + 2)); } }
//@after 0
    proof { assert(svs(extensions.extensions@) + Seq::<Ext>::empty() =~= svs(extensions.extensions@)); }
//@endfn
}
// ---- the hellos ----
pub struct Ch { pub random: Seq<u8>, pub sid: Option<Seq<u8>>, pub suites: Seq<CipherSuite>, pub exts: Seq<Ext> }
pub struct Sh { pub random: Seq<u8>, pub sid: Option<Seq<u8>>, pub suite: CipherSuite, pub exts: Seq<Ext> }
pub open spec fn opt_view(o: Option<&[u8]>) -> Option<Seq<u8>> { match o { Some(s) => Some(s@), None => None } }
spec fn ch_v(h: ClientHello) -> Ch { Ch { random: h.random@, sid: opt_view(h.legacy_session_id_echo), suites: h.cipher_suites@, exts: cvs(h.extensions.extensions@) } }
spec fn sh_v(h: ServerHello) -> Sh { Sh { random: h.random@, sid: opt_view(h.legacy_session_id_echo), suite: h.cipher_suite, exts: svs(h.extensions.extensions@) } }
pub open spec fn suites_w(s: Seq<CipherSuite>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else { be16(suite_num(s[0])) + suites_w(s.skip(1)) } }
pub open spec fn sid_w(o: Option<Seq<u8>>) -> Seq<u8> { match o { Some(s) => seq![s.len() as u8] + s, None => seq![0u8] } }
pub open spec fn front_w(random: Seq<u8>, sid: Option<Seq<u8>>) -> Seq<u8> { seq![3u8, 3u8] + random + sid_w(sid) }
pub open spec fn ch_w(h: Ch) -> Seq<u8> { front_w(h.random, h.sid) + be16(2 * h.suites.len() as int) + suites_w(h.suites) + seq![1u8, 0u8] + extlist_w(h.exts, true) }
pub open spec fn sh_w(h: Sh) -> Seq<u8> { front_w(h.random, h.sid) + be16(suite_num(h.suite)) + seq![0u8] + extlist_w(h.exts, false) }
/// the session id and where it ends
pub open spec fn sid_read(b: Seq<u8>) -> Option<(int, Option<Seq<u8>>)> {
    if b[34] == 0 { Some((35, None)) } else if b[34] > 32 || b.len() < 35 + b[34] { None } else { Some((35 + b[34] as int, Some(b.subrange(35, 35 + b[34] as int)))) }
}
/// those of the suites in b[i..e] the reader knows
pub open spec fn suites_read(b: Seq<u8>, i: int, e: int) -> Seq<CipherSuite> decreases e - i {
    if i + 2 > e { Seq::empty() } else { match suite_of(be16_at(b, i)) { Some(c) => seq![c] + suites_read(b, i + 2, e), None => suites_read(b, i + 2, e) } }
}
pub open spec fn first_sv(s: Seq<Ext>) -> Option<bool> decreases s.len() { if s.len() == 0 { None } else { match s[0] { Ext::Sv(t) => Some(t), _ => first_sv(s.skip(1)) } } }
pub open spec fn ch_read(b: Seq<u8>) -> Option<Ch> {
    if b.len() < 45 || be16_at(b, 0) != 0x303 { None } else { match sid_read(b) { None => None, Some((c, sid)) =>
        if b.len() < c + 2 { None } else { let n = be16_at(b, c); if n % 2 != 0 || b.len() < c + 2 + n { None } else {
            let c2 = c + 2 + n; if b.len() <= c2 || b.len() < c2 + 1 + b[c2] + 2 { None } else {
            let c3 = c2 + 1 + b[c2]; let m = be16_at(b, c3); if b.len() < c3 + 2 + m { None } else {
            match exts_read(b.subrange(c3 + 2, c3 + 2 + m), false) { None => None, Some(v) => Some(Ch { random: b.subrange(2, 34), sid, suites: suites_read(b, c + 2, c2), exts: v }) } } } } } } }
}
pub open spec fn sh_read(b: Seq<u8>) -> Option<Sh> {
    if b.len() < 36 || be16_at(b, 0) != 0x303 { None } else { match sid_read(b) { None => None, Some((c, sid)) =>
        if b.len() < c + 5 { None } else { match suite_of(be16_at(b, c)) { None => None, Some(suite) => { let m = be16_at(b, c + 3);
            if b.len() < c + 5 + m { None } else { match exts_read(b.subrange(c + 5, c + 5 + m), true) { None => None,
                Some(v) => if first_sv(v) == Some(true) { Some(Sh { random: b.subrange(2, 34), sid, suite, exts: v }) } else { None } } } } } } } }
}
pub open spec fn joins(a: Seq<CipherSuite>, v: Seq<CipherSuite>) -> Seq<CipherSuite> { a + v }
broadcast proof fn lemma_joins(a: Seq<CipherSuite>, x: CipherSuite, v: Seq<CipherSuite>) ensures #[trigger] (a.push(x) + v) == a + (seq![x] + v), { assert(a.push(x) + v =~= a + (seq![x] + v)); }
impl<'a> ClientHello<'a> {
//@fn net/client/client_hello.rs impl ClientHello :: fn new
//@ret r
//@spec
    ensures r is Ok, (r->Ok_0).random@ == random@, opt_view((r->Ok_0).legacy_session_id_echo) == opt_view(session_id), (r->Ok_0).extensions.is_client, (r->Ok_0).extensions.extensions@.len() == 0,
        forall|i: int| 0 <= i < (r->Ok_0).cipher_suites@.len() ==> #[trigger] (r->Ok_0).cipher_suites@[i] != CipherSuite::TLS_EMPTY_RENEGOTIATION_INFO_SCSV,
//@endfn
//@fn net/client/client_hello.rs impl ClientHello :: fn as_bytes
//@ret r
//@spec
    requires self.cipher_suites@.len() < 0x8000, self.extensions.is_client,
        forall|i: int| 0 <= i < self.extensions.extensions@.len() ==> writable(#[trigger] cv(self.extensions.extensions@[i]), true),
    ensures r is Ok, (r->Ok_0)@ == ch_w(ch_v(*self)),
//@start
    proof { lemma_bits(); lemma_ws_c(self.extensions.extensions@); assert(self.cipher_suites@.skip(0) =~= self.cipher_suites@); }
    let ghost su = self.cipher_suites@; let ghost hd = front_w(self.random@, opt_view(self.legacy_session_id_echo)) + be16(2 * su.len() as int);
//@loop 0 it
    invariant it.seq().len() == su.len(), forall|j: int| 0 <= j < it.seq().len() ==> *#[trigger] it.seq()[j] == su[j],
        out@ + suites_w(su.skip(it.index() as int)) == hd + suites_w(su),
        forall|x: u16| #[trigger] ((x >> 8) as u8) == (x / 256) % 256, forall|x: u16| #[trigger] (x as u8) == x % 256,
//@before 0
    proof { assert(out@ =~= hd); }
//@in 0 start
    let ghost o0 = out@; let ghost k0 = it.index() as int;
    proof { assert(*it.seq()[k0] == su[k0]); assert(su.skip(k0).skip(1) =~= su.skip(k0 + 1)); assert(su.skip(k0)[0] == su[k0]); }
//@in 0 end
    proof { assert(out@ =~= o0 + be16(suite_num(su[k0]))); assert(out@ + suites_w(su.skip(k0 + 1)) =~= o0 + suites_w(su.skip(k0))); }
//@after 0
    proof { assert(su.skip(su.len() as int) =~= Seq::<CipherSuite>::empty()); assert(out@ =~= hd + suites_w(su)); }
//@end
    proof { assert(out@ =~= ch_w(ch_v(*self))); }
//@endfn
//@fn net/client/client_hello.rs impl ClientHello :: fn from_raw
//@ret r
//@resub `buf\[(\w+)\.\.(\w+)\]\.try_into\(\)\.unwrap\(\)` => `vx_sub(buf, \1, \2)`
//@subst `Result<ClientHello, TlsError>` => `Result<ClientHello<'_>, TlsError>` opt
//@spec
    ensures match ch_read(buf@) { Some(h) => r is Ok && ch_v(r->Ok_0) == h, None => r is Err },
//@start
    broadcast use lemma_joins;
    proof { axiom_slice_len(buf); lemma_bits(); assert(forall|v: Seq<CipherSuite>| #[trigger] (Seq::<CipherSuite>::empty() + v) =~= v); assert(forall|v: Seq<CipherSuite>| #[trigger] (v + Seq::<CipherSuite>::empty()) =~= v); }
//@loop 0 it
        invariant cipher_suites_len % 2 == 0, buf@.len() >= consumed + cipher_suites_len, buf@.len() <= 0x7fff_ffff_ffff_ffff, it.seq().len() == cipher_suites_len / 2,
            cipher_suites@ + suites_read(buf@, consumed + 2 * it.index(), consumed + cipher_suites_len) == suites_read(buf@, consumed as int, consumed + cipher_suites_len),
            forall|a: u8, b: u8| #[trigger] (((a as u16) << 8) | (b as u16)) == a as int * 256 + b as int,
//@in 0 start
    broadcast use lemma_joins;
//@endfn
}
impl<'a> ServerHello<'a> {
//@fn net/server/server_hello.rs impl ServerHello :: fn as_bytes
//@ret r
//@subst `out.extend(self.extensions.as_bytes());` => `out.extend_from_slice(&self.extensions.as_bytes());` opt
//@spec
    requires !self.extensions.is_client,
        forall|i: int| 0 <= i < self.extensions.extensions@.len() ==> writable(#[trigger] sv(self.extensions.extensions@[i]), false),
    ensures r@ == sh_w(sh_v(*self)),
//@start
    proof { lemma_bits(); lemma_ws_s(self.extensions.extensions@); }
//@end
    proof { assert(out@ =~= sh_w(sh_v(*self))); }
//@endfn
//@fn net/server/server_hello.rs impl ServerHello :: fn from_raw
//@ret r
//@resub `buf\[(\w+)\.\.(\w+)\]\.try_into\(\)\.unwrap\(\)` => `slice_to_arr32(&buf[\1..\2])`
//@subst `Result<ServerHello, TlsError>` => `Result<ServerHello<'_>, TlsError>` opt
//@spec
    ensures match sh_read(buf@) { Some(h) => r is Ok && sh_v(r->Ok_0) == h, None => r is Err },
//@start
    proof { axiom_slice_len(buf); lemma_bits(); }
//@before 0
    let ghost xs = svs(extensions.extensions@); let ghost es = extensions.extensions@;
    proof { assert(xs.skip(0) =~= xs); }
//@loop 0 it
    invariant_except_break !tls13_is_supported, first_sv(xs.skip(it.index() as int)) == first_sv(xs),
    invariant it.seq().len() == es.len(), forall|j: int| 0 <= j < it.seq().len() ==> *#[trigger] it.seq()[j] == es[j], xs == svs(es),
    ensures tls13_is_supported == (first_sv(xs) == Some(true)),
//@in 0 start
    let ghost k0 = it.index() as int;
    proof { assert(*it.seq()[k0] == es[k0]); assert(xs[k0] == sv(es[k0])); assert(xs.skip(k0).skip(1) =~= xs.skip(k0 + 1)); assert(xs.skip(k0)[0] == xs[k0]); }
//@endfn
}
struct Certificate { x: Ghost<int> }
impl Certificate {
//@fn net/handshake/certificate.rs impl Certificate :: fn get_certificate_request
//@ret r
//@subst `out.extend(extensions.as_bytes());` => `out.extend_from_slice(&extensions.as_bytes());` opt
//@spec
    requires random@.len() < 256,
    ensures r@ == seq![random@.len() as u8] + random@ + seq![0u8, 8, 0, 0xd, 0, 4, 0, 2, 4, 3],
        1 + random@.len() < r@.len() < 0x1_0000, r@[0] == random@.len(), r@.subrange(1, 1 + random@.len() as int) == random@,
//@end
    proof {
        let es = svs(extensions.extensions@); lemma_ws_s(extensions.extensions@);
        assert(es.skip(1) =~= Seq::<Ext>::empty()); assert(exts_w(es.skip(1), false) =~= Seq::<u8>::empty());
        let a = es[0]->Sa_0; assert(a.skip(1) =~= Seq::<SignatureScheme>::empty()); assert(schemes_w(a.skip(1)) =~= Seq::<u8>::empty());
        assert(schemes_w(a) =~= seq![4u8, 3]);
        assert(body_w(es[0], false) =~= seq![0u8, 2, 4, 3]);
        assert(ext_w(es[0], false) =~= seq![0u8, 0xd, 0, 4, 0, 2, 4, 3]);
        assert(extlist_w(es, false) =~= seq![0u8, 8, 0, 0xd, 0, 4, 0, 2, 4, 3]);
        assert(out@ =~= seq![random@.len() as u8] + random@ + extlist_w(es, false));
        assert(out@.subrange(1, 1 + random@.len() as int) =~= random@);
    }
//@endfn
}
// ---- what one side writes the other reads ----
/// what the reader makes of an extension
pub open spec fn heard1(e: Ext) -> Option<Ext> {
    match e { Ext::Sv(_) => Some(Ext::Sv(true)), Ext::Ks(s) => Some(Ext::Ks(seq![Share { group: NamedGroup::X25519, key: rev(s[0].key) }])), Ext::Sn(n) => Some(Ext::Sn(n)), Ext::Sa(_) => None, Ext::Sg(_) => None }
}
pub open spec fn heard(s: Seq<Ext>) -> Seq<Ext> decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { match heard1(s[0]) { None => heard(s.skip(1)), Some(x) => seq![x] + heard(s.skip(1)) } } }
/// the extensions the code makes: one X25519 share, names as text
pub open spec fn sound(e: Ext, client: bool) -> bool {
    match e { Ext::Sv(_) => true, Ext::Ks(s) => s.len() == 1 && s[0].group == NamedGroup::X25519 && s[0].key.len() == 32, Ext::Sn(n) => client && utf8(n) && n.len() < 0xfff0, Ext::Sa(s) => s.len() <= 64, Ext::Sg(s) => client && s.len() <= 64 }
}
proof fn lemma_be16(n: int) requires 0 <= n < 0x1_0000, ensures be16_at(be16(n), 0) == n, { }
proof fn lemma_ext_rt(e: Ext, client: bool) requires sound(e, client),
    ensures ext_read(ext_num(e), body_w(e, client), !client) == Some(heard1(e)), body_w(e, client).len() < 0x1_0000,
{
    let b = body_w(e, client);
    match e {
        Ext::Sv(_) => { if client { assert(be16_at(b, 1int + 2int * 0int) == 0x304); } else { assert(be16_at(b, 0) == 0x304); } }
        Ext::Ks(s) => {
            let w = share_w(s[0]); let k = Share { group: NamedGroup::X25519, key: rev(s[0].key) };
            assert(w.len() == 36); assert(be16_at(w, 0) == 0x1d); assert(be16_at(w, 2) == 32); assert(w.subrange(4, 36) =~= rev(s[0].key));
            assert(share_read(w) == Some((36int, k)));
            if client {
                assert(s.skip(1) =~= Seq::<Share>::empty()); assert(shares_w(s.skip(1)) =~= Seq::<u8>::empty()); assert(b =~= be16(36) + w);
                assert(be16_at(b, 0) == 36); assert(b.skip(2) =~= w); assert(shares_from(b, 2, 36) == Some(seq![k]));
                assert(shares_read(b, false) == Some(seq![k]));
            } else { assert(b.skip(0) =~= w); assert(shares_from(b, 0, 0) == Some(seq![k])); }
        }
        Ext::Sn(n) => {
            let l = n.len() as int; lemma_be16(l + 3); lemma_be16(l);
            assert(b.len() == 5 + l); assert(be16_at(b, 0) == l + 3); assert(b[2] == 0); assert(be16_at(b, 3) == l); assert(b.subrange(5, 5 + l) =~= n);
        }
        Ext::Sa(s) => { lemma_schemes_len(s); }
        Ext::Sg(s) => { lemma_groups_len(s); }
    }
}
/// every list of extensions the code writes is read back, but for those the reader skips
proof fn lemma_exts_rt(es: Seq<Ext>, client: bool)
    requires forall|i: int| 0 <= i < es.len() ==> sound(#[trigger] es[i], client),
    ensures exts_read(exts_w(es, client), !client) == Some(heard(es)),
    decreases es.len(),
{
    if es.len() > 0 {
        let e = es[0]; let t = es.skip(1); let b = exts_w(es, client); let y = body_w(e, client); let n = y.len() as int;
        assert forall|i: int| 0 <= i < t.len() implies sound(#[trigger] t[i], client) by { assert(t[i] == es[i + 1]); }
        lemma_exts_rt(t, client); lemma_ext_rt(e, client); lemma_be16(n); lemma_be16(ext_num(e));
        assert(b =~= be16(ext_num(e)) + be16(n) + y + exts_w(t, client));
        assert(be16_at(b, 0) == ext_num(e)); assert(be16_at(b, 2) == n);
        assert(b.subrange(4, 4 + n) =~= y); assert(b.skip(4 + n) =~= exts_w(t, client));
    }
}
proof fn lemma_suites_len(s: Seq<CipherSuite>) ensures suites_w(s).len() == 2 * s.len(), decreases s.len() { if s.len() > 0 { lemma_suites_len(s.skip(1)); } }
proof fn lemma_suites_rt(s: Seq<CipherSuite>, b: Seq<u8>, i: int)
    requires 0 <= i, i + 2 * s.len() <= b.len(), b.subrange(i, i + 2 * s.len()) == suites_w(s),
    ensures suites_read(b, i, i + 2 * s.len()) == s,
    decreases s.len(),
{
    if s.len() > 0 {
        let t = s.skip(1); let w = suites_w(s); lemma_suites_len(t); lemma_be16(suite_num(s[0]));
        assert(w[0] == b[i] && w[1] == b[i + 1]) by { assert(b.subrange(i, i + 2 * s.len())[0] == b[i]); assert(b.subrange(i, i + 2 * s.len())[1] == b[i + 1]); }
        assert(be16_at(b, i) == suite_num(s[0]));
        assert(suite_of(suite_num(s[0])) == Some(s[0]));
        assert(b.subrange(i + 2, i + 2 + 2 * t.len()) =~= b.subrange(i, i + 2 * s.len()).skip(2));
        assert(w.skip(2) =~= suites_w(t));
        lemma_suites_rt(t, b, i + 2);
        assert(i + 2 + 2 * t.len() == i + 2 * s.len());
        assert(seq![s[0]] + t =~= s);
    }
}
pub open spec fn sid_ok(o: Option<Seq<u8>>) -> bool { o is Some ==> 1 <= (o->0).len() <= 32 }
proof fn lemma_front(random: Seq<u8>, sid: Option<Seq<u8>>, t: Seq<u8>)
    requires random.len() == 32, sid_ok(sid),
    ensures ({ let b = front_w(random, sid) + t; let c = front_w(random, sid).len() as int;
        b.len() >= 35 && be16_at(b, 0) == 0x303 && b.subrange(2, 34) == random && sid_read(b) == Some((c, sid)) && c == 34 + sid_w(sid).len() }),
{
    let b = front_w(random, sid) + t;
    assert(b.subrange(2, 34) =~= random);
    if sid is Some { assert(b[34] == (sid->0).len()); assert(b.subrange(35, 35 + b[34] as int) =~= sid->0); }
}
/// a ClientHello read back: the same random, session id and suites, and every extension the server understands
proof fn lemma_client_hello_read_back(h: Ch)
    requires h.random.len() == 32, sid_ok(h.sid), 1 <= h.suites.len() < 0x8000, h.exts.len() >= 1,
        forall|i: int| 0 <= i < h.exts.len() ==> sound(#[trigger] h.exts[i], true), exts_w(h.exts, true).len() < 0x1_0000,
    ensures ch_read(ch_w(h)) == Some(Ch { random: h.random, sid: h.sid, suites: h.suites, exts: heard(h.exts) }),
{
    let b = ch_w(h); let x = exts_w(h.exts, true); let s = suites_w(h.suites); let n = 2 * h.suites.len() as int; let c = front_w(h.random, h.sid).len() as int;
    let m = x.len() as int;
    let t = be16(n) + s + seq![1u8, 0u8] + be16(m) + x;
    lemma_suites_len(h.suites); lemma_be16(n); lemma_be16(m); lemma_exts_rt(h.exts, true);
    assert(b =~= front_w(h.random, h.sid) + t);
    lemma_front(h.random, h.sid, t);
    assert(x.len() >= 4) by { lemma_ext_rt(h.exts[0], true); }
    assert(be16_at(b, c) == n);
    assert(b.subrange(c + 2, c + 2 + n) =~= s);
    lemma_suites_rt(h.suites, b, c + 2);
    let c2 = c + 2 + n; assert(b[c2] == 1);
    assert(be16_at(b, c2 + 2) == m);
    assert(b.subrange(c2 + 4, c2 + 4 + m) =~= x);
}
proof fn lemma_first_sv(s: Seq<Ext>) requires exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]) is Sv, ensures first_sv(heard(s)) == Some(true), decreases s.len(),
{
    if !(s[0] is Sv) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]) is Sv; assert(s.skip(1)[i - 1] is Sv); lemma_first_sv(s.skip(1)); }
    match heard1(s[0]) { None => {}, Some(x) => { let v = heard(s.skip(1)); assert((seq![x] + v)[0] == x); assert((seq![x] + v).skip(1) =~= v); } }
}
/// a ServerHello read back
proof fn lemma_server_hello_read_back(h: Sh)
    requires h.random.len() == 32, sid_ok(h.sid), exists|i: int| 0 <= i < h.exts.len() && (#[trigger] h.exts[i]) is Sv,
        forall|i: int| 0 <= i < h.exts.len() ==> sound(#[trigger] h.exts[i], false), exts_w(h.exts, false).len() < 0x1_0000,
    ensures sh_read(sh_w(h)) == Some(Sh { random: h.random, sid: h.sid, suite: h.suite, exts: heard(h.exts) }),
{
    let b = sh_w(h); let x = exts_w(h.exts, false); let m = x.len() as int; let c = front_w(h.random, h.sid).len() as int;
    let t = be16(suite_num(h.suite)) + seq![0u8] + be16(m) + x;
    lemma_be16(suite_num(h.suite)); lemma_be16(m); lemma_exts_rt(h.exts, false); lemma_first_sv(h.exts);
    assert(b =~= front_w(h.random, h.sid) + t);
    lemma_front(h.random, h.sid, t);
    assert(be16_at(b, c) == suite_num(h.suite)); assert(suite_of(suite_num(h.suite)) == Some(h.suite));
    assert(be16_at(b, c + 3) == m);
    assert(b.subrange(c + 5, c + 5 + m) =~= x);
}
}
fn main() {}
