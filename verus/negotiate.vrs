//@include head.inc
//@include ibig.inc
//@include bytes_spec.inc
//@include bytes_contract.inc
//@item crypto/ellipticcurve/curve.rs enum Equation
//@item crypto/ellipticcurve/point.rs struct Point
//@item crypto/ellipticcurve/curve.rs struct Curve
//@item crypto/ellipticcurve/privatekey.rs struct PrivateKey
//@item crypto/ellipticcurve/publickey.rs struct PublicKey
//@include x25519_contract.inc
impl Clone for Curve { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() } }
impl Curve {
    // proved in unit x25519
    #[verifier::external_body]
    fn curve25519() -> (r: Curve) ensures r.equation is Montgomery, r.g.x.v@ == 9, r.g.y.v@ > 0, { unimplemented!() }
}
//@item net/alert.rs enum TlsError nodisc derive=PartialEq,Eq,Structural,Clone,Copy
//@item crypto/ciphersuite.rs enum CipherSuite derive=PartialEq,Eq,Structural,Clone,Copy
//@item net/extensions/named_groups.rs enum NamedGroup derive=PartialEq,Eq,Structural,Clone,Copy
//@item net/extensions/signature_algorithm.rs enum SignatureScheme derive=PartialEq,Eq,Structural,Clone,Copy
//@item net/extensions/signature_algorithm.rs struct SignatureAlgorithms
//@item net/extensions/key_share.rs struct KeyShareEntry
//@item net/extensions/key_share.rs struct KeyShare
//@include text.inc
//@item net/extensions/server_name.rs struct ServerName `String` => `Text`
//@item net/extensions/supported_groups.rs struct SupportedGroups
//@item net/extensions/supported_versions.rs struct SupportedVersions
//@item net/extensions/client.rs enum ClientExtension
//@item net/extensions/server.rs enum ServerExtension
//@item net/extensions/shared.rs struct Extensions `<T: ExtensionWrapper>` => `<T>`
type ClientExtensions = Extensions<ClientExtension>;
type ServerExtensions = Extensions<ServerExtension>;
//@item net/client/client_hello.rs struct ClientHello
//@item net/server/server_hello.rs struct ServerHello
// ---- of the configuration only the name ----
struct ServerConfig { server_name: Option<Text> }
/// `v.try_into().unwrap()` of a vector into 32 bytes
#[verifier::external_body]
fn vec_to_arr32(v: Vec<u8>) -> (r: [u8; 32]) requires v@.len() == 32, ensures r@ == v@, { unimplemented!() }
// ---- `&mut dyn RngCore<IBig>`: contract of unit rand (check P25) ----
#[verifier::external_body]
struct Rng { p: usize }
impl Rng {
    #[verifier::external_body]
    fn bytes(&mut self, n: usize) -> (r: Vec<u8>) ensures r@.len() == n, { unimplemented!() }
    #[verifier::external_body]
    fn between(&mut self, min: usize, max: usize) -> (r: IBig) requires min < max, ensures max <= 32 ==> 0 <= r.v@ < ipow2(256), { unimplemented!() }
}
// ---- specification ----
pub open spec fn rev(s: Seq<u8>) -> Seq<u8> { Seq::new(s.len(), |i: int| s[s.len() - 1 - i]) }
/// a private key for the key exchange
pub open spec fn x_key(k: PrivateKey) -> bool { k.curve.equation is Montgomery && 0 <= k.secret.v@ < ipow2(256) && k.curve.g.x.v@ == 9 && k.curve.g.y.v@ > 0 }
/// the 32 bytes of its public key: X25519(secret, 9)
pub open spec fn x_public(k: PrivateKey) -> Seq<u8> { x25519_s(enc_be(k.secret.v@, 32), enc_le(9, 32)) }
pub open spec fn is_share(e: KeyShareEntry) -> bool { e.group == NamedGroup::X25519 }
pub open spec fn has_share(k: KeyShare) -> bool { exists|i: int| 0 <= i < k.0@.len() && is_share(#[trigger] k.0@[i]) }
/// the extension carries an X25519 share
pub open spec fn shares(e: ClientExtension) -> bool { e is KeyShare && has_share(e->KeyShare_0) }
/// the extension is one the server can go on with
pub open spec fn agreeable(e: ClientExtension, name: Option<Text>) -> bool {
    match e {
        ClientExtension::SupportedVersion(v) => v.0,
        ClientExtension::ServerName(n) => name is Some ==> (name->0).b() == n.0.b(),
        _ => true,
    }
}
/// a suite that can be used (the signalling value is none)
pub open spec fn real_suite(c: CipherSuite) -> bool { c != CipherSuite::TLS_EMPTY_RENEGOTIATION_INFO_SCSV }
/// what the server may answer
pub open spec fn negotiated(ch: Seq<ClientExtension>, suites: Seq<CipherSuite>, name: Option<Text>, sh: ServerHello, k: PrivateKey) -> bool {
    &&& forall|i: int| 0 <= i < ch.len() ==> agreeable(#[trigger] ch[i], name)
    &&& exists|i: int| 0 <= i < ch.len() && shares(#[trigger] ch[i])
    &&& suites.contains(sh.cipher_suite) && real_suite(sh.cipher_suite)
    &&& x_key(k) && answers(sh.extensions.extensions@, k) && !sh.extensions.is_client
}
/// the server's share: on the wire (written in reverse, see unit hellowire) the 32 bytes of its public key
pub open spec fn share_of(e: ServerExtension, k: PrivateKey) -> bool
{ e is KeyShare && (e->KeyShare_0).0@.len() == 1 && is_share((e->KeyShare_0).0@[0]) && rev((e->KeyShare_0).0@[0].opaque@) == x_public(k) }
pub open spec fn answers(s: Seq<ServerExtension>, k: PrivateKey) -> bool
{ s.len() == 2 && share_of(s[0], k) && s[1] is SupportedVersions && (s[1]->SupportedVersions_0).0 }
proof fn lemma_share(u: Seq<u8>) requires u.len() == 32, ensures rev(enc_le(bei(u), 32)) == u, 0 <= bei(u),
{
    lemma_be_bound(u); lemma_enc_be(u);
    assert(rev(enc_le(bei(u), 32)) =~= enc_be(bei(u), 32));
}
impl PublicKey {
//@fn crypto/ellipticcurve/publickey.rs impl PublicKey :: fn new
//@ret r
//@spec
    ensures r.point == point, r.curve == curve,
//@endfn
}
impl PrivateKey {
//@fn crypto/ellipticcurve/privatekey.rs impl PrivateKey :: fn new
//@ret r
//@spec
    ensures r.curve == curve, r.secret == secret,
//@endfn
//@fn crypto/ellipticcurve/privatekey.rs impl PrivateKey :: fn get_public_key
//@ret r
//@spec
    requires x_key(*self),
    ensures r.point.x.v@ == bei(x_public(*self)),
//@start
    proof { reveal_with_fuel(ipow2, 9); lemma_ipow2_add(8, 248); }
//@endfn
}
impl<T> Extensions<T> {
//@fn net/extensions/shared.rs impl Extensions<T> :: fn new
//@ret r
//@spec
    ensures r.extensions@.len() == 0, !r.is_client,
//@endfn
//@fn net/extensions/shared.rs impl Extensions<T> :: fn as_vec
//@ret r
//@spec
    ensures r@ == self.extensions@,
//@endfn
//@fn net/extensions/shared.rs impl Extensions<T> :: fn push
//@spec
    ensures final(self).extensions@ == old(self).extensions@.push(ext), final(self).is_client == old(self).is_client,
//@endfn
}
impl KeyShareEntry {
//@fn net/extensions/key_share.rs impl KeyShareEntry :: fn new
//@ret r
//@spec
    ensures r.group == group, r.opaque@ == opaque@,
//@endfn
}
impl KeyShare {
//@fn net/extensions/key_share.rs impl KeyShare :: fn new
//@ret r
//@spec
    ensures r.0@.len() == 1, r.0@[0] == kse,
//@endfn
}
impl SupportedVersions {
//@fn net/extensions/supported_versions.rs impl SupportedVersions :: fn is_tls13_supported
//@ret r
//@spec
    ensures r == self.0,
//@endfn
//@fn net/extensions/supported_versions.rs impl Default for SupportedVersions :: fn default
//@ret r
//@spec
    ensures r.0,
//@endfn
}
impl ServerName {
//@fn net/extensions/server_name.rs impl ServerName :: fn get
//@ret r
//@subst `&str` => `&Text`
//@spec
    ensures r.b() == self.0.b(),
//@endfn
}
impl<'a> ClientHello<'a> {
//@fn net/client/client_hello.rs impl ClientHello :: fn get_public_key_share
//@attr #[verifier::loop_isolation(false)]
//@ret r
//@spec
    ensures
        r is Some ==> is_share(*(r->0)) && exists|i: int, j: int| 0 <= i < self.extensions.extensions@.len() && #[trigger] share_at(self.extensions.extensions@[i], j, *(r->0)),
        r is None ==> forall|i: int| 0 <= i < self.extensions.extensions@.len() ==> !shares(#[trigger] self.extensions.extensions@[i]),
//@loop 0 it
    invariant it.seq().len() == self.extensions.extensions@.len(), forall|j: int| 0 <= j < it.seq().len() ==> *#[trigger] it.seq()[j] == self.extensions.extensions@[j],
        forall|j: int| 0 <= j < it.index() ==> !shares(#[trigger] self.extensions.extensions@[j]),
//@in 0 start
    proof { assert(*it.seq()[it.index()] == self.extensions.extensions@[it.index()]); }
    let ghost e0 = self.extensions.extensions@[it.index()];
//@before 1
    proof { assert(ext is KeyShare && *ext == e0); }
//@loop 1 jt
    invariant forall|j: int| 0 <= j < jt.index() ==> !is_share(#[trigger] (ext->KeyShare_0).0@[j]),
        ext is KeyShare && jt.seq().len() == (ext->KeyShare_0).0@.len() && forall|j: int| 0 <= j < jt.seq().len() ==> *#[trigger] jt.seq()[j] == (ext->KeyShare_0).0@[j],
//@in 1 start
    proof { assert(share_at(*ext, jt.index(), *jt.seq()[jt.index()])); }
//@endfn
}
pub open spec fn share_at(e: ClientExtension, j: int, k: KeyShareEntry) -> bool { e is KeyShare && 0 <= j < (e->KeyShare_0).0@.len() && (e->KeyShare_0).0@[j] == k }
impl<'a> ServerHello<'a> {
//@fn net/server/server_hello.rs impl ServerHello :: fn get_public_key_share
//@attr #[verifier::loop_isolation(false)]
//@ret r
//@spec
    ensures
        r is Some ==> exists|i: int| 0 <= i < self.extensions.extensions@.len() && #[trigger] first_share(self.extensions.extensions@[i]) == Some(*(r->0)),
        r is None ==> forall|i: int| 0 <= i < self.extensions.extensions@.len() ==> #[trigger] first_share(self.extensions.extensions@[i]) is None,
//@loop 0 it
    invariant it.seq().len() == self.extensions.extensions@.len(), forall|j: int| 0 <= j < it.seq().len() ==> *#[trigger] it.seq()[j] == self.extensions.extensions@[j],
        forall|j: int| 0 <= j < it.index() ==> #[trigger] first_share(self.extensions.extensions@[j]) is None,
//@in 0 start
    proof { assert(*it.seq()[it.index()] == self.extensions.extensions@[it.index()]); assert(first_share(*it.seq()[it.index()]) == first_share(self.extensions.extensions@[it.index()])); }
//@endfn
//@fn net/server/server_hello.rs impl ServerHello :: fn from_client_hello
//@attr #[verifier::loop_isolation(false)]
//@ret r
//@subst `rng: &mut dyn RngCore<IBig>` => `rng: &mut Rng`
//@resub `for (\w+) in ((?:\w+\.)*cipher_suites)\.iter\(\) \{` => `let mut vx_i: usize = 0; while vx_i < \2.len() { let \1 = &\2[vx_i]; vx_i = vx_i + 1;`
//@resub `(\w+\.bytes\(\w+\))\.try_into\(\)\.unwrap\(\)` => `vec_to_arr32(\1)` opt
//@spec
    ensures r is Ok ==> negotiated(client_hello.extensions.extensions@, client_hello.cipher_suites@, config.server_name, (r->Ok_0).0, (r->Ok_0).1)
        && (r->Ok_0).0.legacy_session_id_echo == client_hello.legacy_session_id_echo,
//@start
    proof { assert forall|u: Seq<u8>| 0 <= #[trigger] bei(u) by { lemma_be_bound(u); }
        assert forall|u: Seq<u8>| u.len() == 32 implies rev(#[trigger] enc_le(bei(u), 32)) == u && 0 <= bei(u) by { lemma_share(u); } axiom_x25519_all(); }
    let ghost ce = client_hello.extensions.extensions@; let ghost cc = client_hello.cipher_suites@;
//@loop 0 it
    invariant it.seq().len() == ce.len(), forall|j: int| 0 <= j < it.seq().len() ==> *#[trigger] it.seq()[j] == ce[j],
        forall|j: int| 0 <= j < it.index() ==> agreeable(#[trigger] ce[j], config.server_name),
        private_key is Some ==> exists|j: int| 0 <= j < it.index() && shares(#[trigger] ce[j]),
        !extensions.is_client, private_key is None ==> extensions.extensions@.len() == 0,
        private_key is Some ==> x_key(private_key->0) && extensions.extensions@.len() == 1 && share_of(extensions.extensions@[0], private_key->0),
        private_key is Some == named_group is Some,
//@in 0 start
    proof { assert(*it.seq()[it.index()] == ce[it.index()]); }
//@loop 1 jt
    invariant_except_break private_key is None, named_group is None, extensions.extensions@.len() == 0,
    invariant jt.seq().len() == key_share.0@.len(), forall|j: int| 0 <= j < jt.seq().len() ==> *#[trigger] jt.seq()[j] == key_share.0@[j],
        !extensions.is_client,
    ensures
        private_key is None ==> extensions.extensions@.len() == 0,
        private_key is Some ==> has_share(*key_share) && x_key(private_key->0) && extensions.extensions@.len() == 1 && share_of(extensions.extensions@[0], private_key->0),
        private_key is Some == named_group is Some,
//@in 1 start
    proof { assert(*jt.seq()[jt.index()] == key_share.0@[jt.index()]); }
//@loop 2 jt
    invariant jt.seq().len() == sa.0@.len(), forall|j: int| 0 <= j < jt.seq().len() ==> *#[trigger] jt.seq()[j] == sa.0@[j],
//@in 2 start
    proof { assert(*jt.seq()[jt.index()] == sa.0@[jt.index()]); }
//@loop 3
    invariant vx_i <= cc.len(), cipher_suite_to_use is Some ==> cc.contains(cipher_suite_to_use->0) && real_suite(cipher_suite_to_use->0),
    decreases cc.len() - vx_i,
//@in 3 start
    proof { assert(cc.contains(cc[vx_i as int])); }
//@endfn
}
pub open spec fn first_share(e: ServerExtension) -> Option<KeyShareEntry>
{ if e is KeyShare && (e->KeyShare_0).0@.len() > 0 { Some((e->KeyShare_0).0@[0]) } else { None } }
proof fn axiom_x25519_all() ensures forall|k: Seq<u8>, u: Seq<u8>| (#[trigger] x25519_s(k, u)).len() == 32,
{ assert forall|k: Seq<u8>, u: Seq<u8>| (#[trigger] x25519_s(k, u)).len() == 32 by { axiom_x25519_len(k, u); } }
}
fn main() {}
