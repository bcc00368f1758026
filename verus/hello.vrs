//@include head.inc
//@include slice_len.inc
//@item net/alert.rs enum TlsError nodisc derive=PartialEq,Eq,Structural
//@item crypto/ciphersuite.rs enum CipherSuite derive=PartialEq,Eq,Structural,Clone,Copy
//@item net/extensions/named_groups.rs enum NamedGroup derive=PartialEq,Eq,Structural,Clone,Copy
//@item net/extensions/shared.rs enum ExtensionType derive=PartialEq,Eq,Structural
//@item net/extensions/signature_algorithm.rs enum SignatureScheme derive=PartialEq,Eq,Structural,Clone,Copy
//@item net/extensions/signature_algorithm.rs struct SignatureAlgorithms
//@item net/extensions/key_share.rs struct KeyShareEntry
//@item net/extensions/key_share.rs struct KeyShare
//@item net/extensions/server_name.rs struct ServerName
//@item net/extensions/supported_groups.rs struct SupportedGroups
//@item net/extensions/supported_versions.rs struct SupportedVersions
//@item net/extensions/client.rs enum ClientExtension
//@item net/extensions/server.rs enum ServerExtension
//@item net/extensions/certificate_request.rs enum CertificateRequestExtension
//@item net/extensions/shared.rs struct Extensions `<T: ExtensionWrapper>` => `<T>`
type ClientExtensions = Extensions<ClientExtension>;
type ServerExtensions = Extensions<ServerExtension>;
type CertificateRequestExtensions = Extensions<CertificateRequestExtension>;
//@item net/client/client_hello.rs struct ClientHello
//@item net/server/server_hello.rs struct ServerHello
/// `buf[a..b].try_into().unwrap()` of a byte slice into a byte slice: the slice itself
fn vx_sub(b: &[u8], a: usize, e: usize) -> (r: &[u8]) requires a <= e <= b@.len(), ensures r@ == b@.subrange(a as int, e as int), { &b[a..e] }
#[verifier::external_body]
fn slice_to_arr32(v: &[u8]) -> (r: [u8; 32]) requires v@.len() == 32, ensures r@ == v@, { unimplemented!() }
#[verifier::external_body]
fn vx_from_utf8(v: Vec<u8>) -> (r: Result<String, ()>) { unimplemented!() }
proof fn lemma_u16(a: u8, b: u8)
    ensures ((a as u16) << 8) | b as u16 == a as int * 256 + b as int,
{ assert((((a as u16) << 8u16) | b as u16) == (a as u16 * 256 + b as u16) as u16) by(bit_vector); }
proof fn lemma_u16b()
    ensures forall|a: u8, b: u8| (#[trigger] (((a as usize) << 8) | (b as usize))) <= 0xffff, forall|a: u8, b: u8| (#[trigger] (((a as u16) << 8) | (b as u16))) <= 0xffff,
{ assert(forall|a: u8, b: u8| (#[trigger] (((a as usize) << 8usize) | (b as usize))) <= 0xffff) by(bit_vector); }
#[allow(non_camel_case_types)]
struct bytes {}
impl bytes {
//@fn utils/bytes.rs fn to_u16
//@ret r
//@spec
    ensures buf@.len() >= 2 ==> r == buf@[0] as int * 256 + buf@[1] as int,
//@start
    proof { if buf@.len() >= 2 { lemma_u16(buf@[0], buf@[1]); } }
//@endfn
}
impl CipherSuite {
//@fn crypto/ciphersuite.rs impl CipherSuite :: fn new
//@endfn
}
impl NamedGroup {
//@fn net/extensions/named_groups.rs impl NamedGroup :: fn new
//@endfn
}
impl ExtensionType {
//@fn net/extensions/shared.rs impl ExtensionType :: fn new
//@endfn
}
impl SignatureScheme {
//@fn net/extensions/signature_algorithm.rs impl SignatureScheme :: fn new
//@endfn
}
impl<T> Extensions<T> {
//@fn net/extensions/shared.rs impl Extensions<T> :: fn new
//@endfn
//@fn net/extensions/shared.rs impl Extensions<T> :: fn as_vec
//@endfn
//@fn net/extensions/shared.rs impl Extensions<T> :: fn push
//@endfn
//@fn net/extensions/shared.rs impl Extensions<T> :: fn set_is_client
//@endfn
}
impl KeyShareEntry {
//@fn net/extensions/key_share.rs impl KeyShareEntry :: fn parse
//@ret r
//@spec
    ensures r is Ok ==> 4 <= r->Ok_0.0 <= buf@.len(),
//@endfn
}
impl KeyShare {
//@fn net/extensions/key_share.rs impl KeyShare :: fn parse
//@start
    proof { axiom_slice_len(buf); }
//@loop 0
        invariant consumed <= buf@.len(), buf@.len() <= 0x7fff_ffff_ffff_ffff,
        decreases buf@.len() - consumed,
//@endfn
//@fn net/extensions/key_share.rs impl Extension for KeyShare :: fn server_parse
//@endfn
//@fn net/extensions/key_share.rs impl Extension for KeyShare :: fn client_parse
//@endfn
}
impl SupportedVersions {
//@fn net/extensions/supported_versions.rs impl SupportedVersions :: fn new
//@endfn
//@fn net/extensions/supported_versions.rs impl SupportedVersions :: fn is_tls13_supported
//@endfn
//@fn net/extensions/supported_versions.rs impl Extension for SupportedVersions :: fn server_parse
//@loop 0
        invariant len <= 255, len % 2 == 0, buf@.len() >= 1 + len,
//@endfn
//@fn net/extensions/supported_versions.rs impl Extension for SupportedVersions :: fn client_parse
//@endfn
}
impl SignatureAlgorithms {
//@fn net/extensions/signature_algorithm.rs impl Extension for SignatureAlgorithms :: fn server_parse
//@loop 0
        invariant len <= 65535, len % 2 == 0, buf@.len() >= 2 + len,
//@endfn
//@fn net/extensions/shared.rs trait Extension :: fn client_parse
//@subst `Extension::server_parse(buf)` => `Self::server_parse(buf)`
//@endfn
}
impl SupportedGroups {
//@fn net/extensions/supported_groups.rs impl Extension for SupportedGroups :: fn server_parse
//@loop 0
        invariant len <= 65535, len % 2 == 0, buf@.len() >= 2 + len,
//@endfn
}
impl ServerName {
//@fn net/extensions/server_name.rs impl Extension for ServerName :: fn server_parse
//@subst `String::from_utf8(` => `vx_from_utf8(`
//@endfn
}
impl ClientExtension {
//@fn net/extensions/client.rs impl ClientExtension :: fn from_client_hello
//@start
    proof { axiom_slice_len(buf); }
//@loop 0
        invariant consumed <= buf@.len(), buf@.len() <= 0x7fff_ffff_ffff_ffff,
        decreases buf@.len() - consumed,
//@endfn
}
impl ServerExtensions {
//@fn net/extensions/server.rs impl ServerExtensions :: fn from_server_hello
//@start
    proof { axiom_slice_len(buf); }
//@loop 0
        invariant consumed <= buf@.len(), buf@.len() <= 0x7fff_ffff_ffff_ffff,
        decreases buf@.len() - consumed,
//@endfn
}
impl CertificateRequestExtensions {
//@fn net/extensions/certificate_request.rs impl CertificateRequestExtensions :: fn from_request
//@start
    proof { axiom_slice_len(buf); }
//@loop 0
        invariant consumed <= buf@.len(), buf@.len() <= 0x7fff_ffff_ffff_ffff,
        decreases buf@.len() - consumed,
//@endfn
}
impl<'a> ClientHello<'a> {
//@fn net/client/client_hello.rs impl ClientHello :: fn from_raw
//@resub `buf\[(\w+)\.\.(\w+)\]\.try_into\(\)\.unwrap\(\)` => `vx_sub(buf, \1, \2)`
//@subst `Result<ClientHello, TlsError>` => `Result<ClientHello<'_>, TlsError>` opt
//@start
    proof { axiom_slice_len(buf); lemma_u16b(); }
//@loop 0
        invariant cipher_suites_len % 2 == 0, buf@.len() >= consumed + cipher_suites_len, buf@.len() <= 0x7fff_ffff_ffff_ffff,
//@endfn
//@fn net/client/client_hello.rs impl ClientHello :: fn get_public_key_share
//@endfn
}
impl<'a> ServerHello<'a> {
//@fn net/server/server_hello.rs impl ServerHello :: fn from_raw
//@resub `buf\[(\w+)\.\.(\w+)\]\.try_into\(\)\.unwrap\(\)` => `slice_to_arr32(&buf[\1..\2])`
//@subst `Result<ServerHello, TlsError>` => `Result<ServerHello<'_>, TlsError>` opt
//@start
    proof { axiom_slice_len(buf); lemma_u16b(); }
//@endfn
//@fn net/server/server_hello.rs impl ServerHello :: fn get_public_key_share
//@endfn
}
}
fn main() {}
