//@include head.inc
use vstd::string::*;
//@item net/key_schedule.rs struct Key
//@item net/key_schedule.rs struct WriteKeys
// ---- stand-in: of the record protection only the keys ----
struct RecordPayloadProtection { handshake_keys: WriteKeys, application_keys: Option<WriteKeys> }
// ---- lower-case hexadecimal ----
pub open spec fn digit(n: int) -> char { if n < 10 { (48 + n) as char } else { (87 + n) as char } }
pub open spec fn hex_s(b: Seq<u8>) -> Seq<char> decreases b.len()
{ if b.len() == 0 { Seq::empty() } else { hex_s(b.drop_last()).push(digit(b.last() as int / 16)).push(digit(b.last() as int % 16)) } }
/// of full length, whatever the leading bytes and nibbles; and one-to-one
proof fn lemma_hex_len(b: Seq<u8>) ensures hex_s(b).len() == 2 * b.len(), decreases b.len() { if b.len() > 0 { lemma_hex_len(b.drop_last()); } }
proof fn lemma_hex_at(b: Seq<u8>, i: int) requires 0 <= i < b.len(),
    ensures hex_s(b).len() == 2 * b.len(), hex_s(b)[2 * i] == digit(b[i] as int / 16), hex_s(b)[2 * i + 1] == digit(b[i] as int % 16),
    decreases b.len()
{ lemma_hex_len(b); lemma_hex_len(b.drop_last()); if i < b.len() - 1 { lemma_hex_at(b.drop_last(), i); } }
proof fn lemma_hex_one_to_one(a: Seq<u8>, b: Seq<u8>) requires hex_s(a) == hex_s(b), ensures a == b,
{
    lemma_hex_len(a); lemma_hex_len(b);
    assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { lemma_hex_at(a, i); lemma_hex_at(b, i); }
    assert(a =~= b);
}
/// `format!("{b:02x}")`: two lower-case hexadecimal digits
#[verifier::external_body]
fn vx_02x(b: u8) -> (r: String) ensures r@ == seq![digit(b as int / 16), digit(b as int % 16)], { unimplemented!() }
/// `format!("{b:x}")`: no padding
#[verifier::external_body]
fn vx_x(b: u8) -> (r: String) ensures r@ == if b < 16 { seq![digit(b as int)] } else { seq![digit(b as int / 16), digit(b as int % 16)] }, { unimplemented!() }
// ---- the file: opened without truncation and in append mode, what is written is added to its end (the ghost parameter `log`) ----
struct File { append: Ghost<bool> }
struct OpenOptions { c: Ghost<bool>, w: Ghost<bool>, a: Ghost<bool>, t: Ghost<bool> }
impl OpenOptions {
    fn new() -> (r: Self) ensures !r.c@ && !r.w@ && !r.a@ && !r.t@, { OpenOptions { c: Ghost(false), w: Ghost(false), a: Ghost(false), t: Ghost(false) } }
    #[verifier::external_body]
    fn create(self, v: bool) -> (r: Self) ensures r == (OpenOptions { c: Ghost(v), ..self }), { unimplemented!() }
    #[verifier::external_body]
    fn write(self, v: bool) -> (r: Self) ensures r == (OpenOptions { w: Ghost(v), ..self }), { unimplemented!() }
    #[verifier::external_body]
    fn append(self, v: bool) -> (r: Self) ensures r == (OpenOptions { a: Ghost(v), ..self }), { unimplemented!() }
    #[verifier::external_body]
    fn truncate(self, v: bool) -> (r: Self) ensures r == (OpenOptions { t: Ghost(v), ..self }), { unimplemented!() }
    // a file that cannot be opened ends the process with a message: outside the statement
    #[verifier::external_body]
    fn open(self, path: &String) -> (r: File) requires self.c@, ensures r.append@ == (self.a@ && !self.t@), { unimplemented!() }
}
/// `writeln!(file, "{}", content)`
#[verifier::external_body]
fn vx_writeln(file: &mut File, content: &String, log: &mut Ghost<Seq<char>>) -> (r: Result<(), ()>)
    requires old(file).append@, ensures r is Ok ==> final(log)@ == old(log)@ + content@.push('\n'), r is Err ==> final(log)@ == old(log)@, { unimplemented!() }

//@item utils/keylog.rs struct KeyLog
// ---- NSS Key Log Format: <label> <client random> <secret> ----
pub open spec fn nl(label: Seq<char>, random: Seq<char>, secret: Seq<u8>) -> Seq<char> { label + seq![' '] + random + seq![' '] + hex_s(secret) + seq!['\n'] }
pub open spec fn hs_lines(random: Seq<char>, server: Seq<u8>, client: Seq<u8>) -> Seq<char>
{ nl("SERVER_HANDSHAKE_TRAFFIC_SECRET"@, random, server) + nl("CLIENT_HANDSHAKE_TRAFFIC_SECRET"@, random, client) }
pub open spec fn ap_lines(random: Seq<char>, server: Seq<u8>, client: Seq<u8>) -> Seq<char>
{ nl("SERVER_TRAFFIC_SECRET_0"@, random, server) + nl("CLIENT_TRAFFIC_SECRET_0"@, random, client) }
//@fn utils/bytes.rs fn to_hex
//@ret r
//@resub `(\w+)\.iter\(\)\s*\.map\(\|(\w+)\| (\w+!\("[^"]*"\))\)\s*\.collect::<Vec<String>>\(\)\s*\.join\(""\)` => `let vx_b = \1; let mut vx_s = String::new(); for vx_i in 0..\1.len() { let \2 = vx_b[vx_i]; vx_s.append(\3.as_str()); } vx_s` opt
//@resub `format!\("\{(\w+):02x\}"\)` => `vx_02x(\1)` opt
//@resub `format!\("\{(\w+):x\}"\)` => `vx_x(\1)` opt
//@spec
    ensures r@ == hex_s(b@),
//@loop 0
        invariant vx_b == b, vx_s@ == hex_s(vx_b@.take(vx_i as int)),
//@in 0 end
        proof { assert(vx_b@.take(vx_i + 1).drop_last() =~= vx_b@.take(vx_i as int)); assert(vx_s@ =~= hex_s(vx_b@.take(vx_i as int)).push(digit(vx_b@[vx_i as int] as int / 16)).push(digit(vx_b@[vx_i as int] as int % 16))); }
//@after 0
    proof { assert(b@.take(b@.len() as int) =~= b@); }
//@endfn
impl KeyLog {
//@fn utils/keylog.rs impl KeyLog :: fn new
//@ret r
//@subst `bytes::to_hex` => `to_hex` opt all
//@spec
    ensures r.filepath == filepath, r.client_random@ == hex_s(client_random@),
//@endfn
//@fn utils/keylog.rs impl KeyLog :: fn append_from_record_payload_protection
//@subst `keys: &RecordPayloadProtection` => `keys: &RecordPayloadProtection, log: &mut Ghost<Seq<char>>`
//@resub `(self\.append_\w+_traffic_secrets\([^;{}]*?),?\s*\);` => `\1, log);` opt all
//@spec
    ensures final(log)@ == old(log)@ || final(log)@ == old(log)@ + (match keys.application_keys {
        Some(a) => ap_lines(self.client_random@, a.server.traffic_secret@, a.client.traffic_secret@),
        None => hs_lines(self.client_random@, keys.handshake_keys.server.traffic_secret@, keys.handshake_keys.client.traffic_secret@) }),
//@endfn
//@fn utils/keylog.rs impl KeyLog :: fn append_application_traffic_secrets
//@subst `client: &[u8]` => `client: &[u8], log: &mut Ghost<Seq<char>>`
//@subst `bytes::to_hex` => `to_hex` opt all
//@subst `self.append_to_file(content)` => `self.append_to_file(content, log)` opt
//@resub `content \+= ("[^"]*");` => `proof { reveal_strlit(\1); } content.append(\1);` opt all
//@resub `content \+= &([^;]*);` => `content.append(\1.as_str());` opt all
//@spec
    ensures final(log)@ == old(log)@ || final(log)@ == old(log)@ + ap_lines(self.client_random@, server@, client@),
//@start
    proof { reveal_strlit("SERVER_TRAFFIC_SECRET_0"); reveal_strlit("CLIENT_TRAFFIC_SECRET_0"); }
//@before `self.append_to_file(content, log)` opt
    proof { assert(content@.push('\n') =~= ap_lines(self.client_random@, server@, client@)); }
//@endfn
//@fn utils/keylog.rs impl KeyLog :: fn append_handshake_traffic_secrets
//@subst `client: &[u8]` => `client: &[u8], log: &mut Ghost<Seq<char>>`
//@subst `bytes::to_hex` => `to_hex` opt all
//@subst `self.append_to_file(content)` => `self.append_to_file(content, log)` opt
//@resub `content \+= ("[^"]*");` => `proof { reveal_strlit(\1); } content.append(\1);` opt all
//@resub `content \+= &([^;]*);` => `content.append(\1.as_str());` opt all
//@spec
    ensures final(log)@ == old(log)@ || final(log)@ == old(log)@ + hs_lines(self.client_random@, server@, client@),
//@start
    proof { reveal_strlit("SERVER_HANDSHAKE_TRAFFIC_SECRET"); reveal_strlit("CLIENT_HANDSHAKE_TRAFFIC_SECRET"); }
//@before `self.append_to_file(content, log)` opt
    proof { assert(content@.push('\n') =~= hs_lines(self.client_random@, server@, client@)); }
//@endfn
//@fn utils/keylog.rs impl KeyLog :: fn append_to_file
//@subst `content: String` => `content: String, log: &mut Ghost<Seq<char>>`
//@resub `\s*\.unwrap_or_else\(\|_\| panic!\([^;]*?\)\);` => `;` opt
//@resub `if let Err\(e\) = writeln!\(file, "\{\}", content\) \{[^{}]*?\{?\}?[^{}]*?\}` => `let vx_w = vx_writeln(&mut file, &content, log);` opt
//@spec
    ensures final(log)@ == old(log)@ || final(log)@ == old(log)@ + content@.push('\n'),
//@endfn
}
}
fn main() {}
