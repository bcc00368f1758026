//@include head.inc
//@item net/alert.rs enum TlsError nodisc derive=PartialEq,Eq,Structural
//@include frame_spec.inc
//@include record_types.inc
#[verifier::external_body]
fn slice_to_arr5(v: &[u8]) -> (r: [u8; 5]) requires v@.len() == 5, ensures r@ == v@, { unimplemented!() }
proof fn lemma_u16(a: u8, b: u8)
    ensures ((a as u16) << 8) | b as u16 == a as int * 256 + b as int,
{ assert((((a as u16) << 8u16) | b as u16) == (a as u16 * 256 + b as u16) as u16) by(bit_vector); }
proof fn lemma_u24(a: u8, b: u8, c: u8)
    ensures (((a as u32) << 16) | ((b as u32) << 8)) | c as u32 == a as int * 65536 + b as int * 256 + c as int,
        (a as u32) << 16 == a as int * 65536, (b as u32) << 8 == b as int * 256, (a as usize) << 16 == a as int * 65536, (b as usize) << 8 == b as int * 256,
        (((a as usize) << 16) | ((b as usize) << 8)) | c as usize == a as int * 65536 + b as int * 256 + c as int,
{ assert((a as u32) << 16u32 == a as u32 * 65536 && a as u32 * 65536 <= 0xff0000) by(bit_vector); assert((b as u32) << 8u32 == b as u32 * 256 && b as u32 * 256 <= 0xff00) by(bit_vector);
    assert((a as usize) << 16u32 == a as usize * 65536 && a as usize * 65536 <= 0xff0000) by(bit_vector); assert((b as usize) << 8u32 == b as usize * 256 && b as usize * 256 <= 0xff00) by(bit_vector);
    assert(((((a as usize) << 16u32) | ((b as usize) << 8u32)) | c as usize) == (a as usize * 65536 + b as usize * 256 + c as usize) as usize && a as usize * 65536 + b as usize * 256 + c as usize <= 0xffffff) by(bit_vector);
assert(((((a as u32) << 16u32) | ((b as u32) << 8u32)) | c as u32) == (a as u32 * 65536 + b as u32 * 256 + c as u32) as u32) by(bit_vector); }
proof fn lemma_len_bytes(n: usize)
    ensures (n >> 8) as u8 == ((n as int / 256) % 256) as u8, n as u8 == (n as int % 256) as u8, (n >> 16) as u8 == ((n as int / 65536) % 256) as u8,
{
    assert(n >> 8 == n / 256) by(bit_vector); assert(n >> 16 == n / 65536) by(bit_vector);
    assert(n as u8 == (n % 256) as u8) by(bit_vector);
    let m = n >> 8; assert(m as u8 == (m % 256) as u8) by(bit_vector);
    let k = n >> 16; assert(k as u8 == (k % 256) as u8) by(bit_vector);
}
/// parsing what was serialised gives it back, with anything behind it
proof fn lemma_record_roundtrip(ty: u8, body: Seq<u8>, rest: Seq<u8>)
    requires known_type(ty), body.len() < 65536,
    ensures ({ let b = record_bytes(ty, body) + rest;
        rec_len(b) == body.len() && rec_ok(b) && b[0] == ty && b.subrange(5, 5 + rec_len(b)) == body }),
{ let b = record_bytes(ty, body) + rest; assert(b.subrange(5, 5 + body.len() as int) =~= body); }
proof fn lemma_handshake_roundtrip(ty: u8, body: Seq<u8>, rest: Seq<u8>)
    requires known_hs(ty as int), body.len() < 0x100_0000,
    ensures ({ let b = hs_msg(ty as int, body) + rest;
        hs_len(b) == body.len() && hs_ok(b) && b[0] == ty && b.subrange(4, 4 + hs_len(b)) == body && b.subrange(0, 4 + hs_len(b)) == hs_msg(ty as int, body) }),
{ let b = hs_msg(ty as int, body) + rest; assert(b.subrange(4, 4 + body.len() as int) =~= body); assert(b.subrange(0, 4 + body.len() as int) =~= hs_msg(ty as int, body));
  let n = body.len() as int; assert(n / 65536 < 256); assert((n / 65536) * 65536 + ((n / 256) % 256) * 256 + n % 256 == n); }
pub open spec fn rec_len(b: Seq<u8>) -> int { b[3] as int * 256 + b[4] as int }
pub open spec fn rec_ok(b: Seq<u8>) -> bool { b.len() >= 5 && known_type(b[0]) && b.len() >= 5 + rec_len(b) }
pub open spec fn hs_len(b: Seq<u8>) -> int { b[1] as int * 65536 + b[2] as int * 256 + b[3] as int }
pub open spec fn known_hs(t: int) -> bool { t == 1 || t == 2 || t == 4 || t == 5 || t == 8 || t == 11 || t == 13 || t == 15 || t == 20 || t == 24 || t == 254 }
pub open spec fn hs_ok(b: Seq<u8>) -> bool { b.len() >= 4 && known_hs(b[0] as int) && b.len() >= 4 + hs_len(b) }
impl RecordType {
//@fn net/record.rs impl RecordType :: fn new
//@ret r
//@spec
    ensures known_type(byte) == r is Ok, r is Ok ==> r->Ok_0 as u8 == byte, r is Err ==> r->Err_0 == TlsError::DecodeError,
//@endfn
}
impl<'a> Value<'a> {
//@fn net/record.rs impl AsRef<[u8]> for Value :: fn as_ref
//@ret r
//@spec
    ensures r@ == vbytes(*self),
//@endfn
//@fn net/record.rs impl Value :: fn len
//@ret r
//@spec
    ensures r == vbytes(*self).len(),
//@endfn
//@fn net/record.rs impl Value :: fn is_empty
//@ret r
//@spec
    ensures r == (vbytes(*self).len() == 0),
//@endfn
}
impl<'a> Record<'a> {
//@fn net/record.rs impl Record :: fn new
//@ret r
//@subst `-> Record {` => `-> Record<'_> {` opt
//@spec
    ensures r.content_type == content_type, r.version == 0x0303, r.fraqment == fraqment, r.len == vbytes(fraqment).len(), r.header@ == seq![content_type as u8, 3u8, 3u8, 0u8, 0u8],
//@endfn
//@fn net/record.rs impl Record :: fn from_raw
//@ret r
//@subst `buf[..5].try_into().unwrap()` => `slice_to_arr5(&buf[..5])`
//@spec
    ensures
        r is Ok <==> rec_ok(buf@),
        r is Ok ==> r->Ok_0.0 == 5 + rec_len(buf@) && r->Ok_0.1.content_type as u8 == buf@[0] && r->Ok_0.1.version == buf@[1] as int * 256 + buf@[2] as int
            && r->Ok_0.1.len == rec_len(buf@) && r->Ok_0.1.header@ == buf@.subrange(0, 5) && vbytes(r->Ok_0.1.fraqment) == buf@.subrange(5, 5 + rec_len(buf@)),
        r is Err ==> r->Err_0 == TlsError::DecodeError,
//@start
    proof { if buf@.len() >= 5 { lemma_u16(buf@[1], buf@[2]); lemma_u16(buf@[3], buf@[4]); } }
//@endfn
//@fn net/record.rs impl Record :: fn as_bytes
//@ret r
//@spec
    ensures vbytes(self.fraqment).len() < 65536 ==> r@ == record_bytes(self.content_type as u8, vbytes(self.fraqment)),
//@start
    proof { lemma_len_bytes(vbytes(self.fraqment).len() as usize); }
//@end
    proof { if vbytes(self.fraqment).len() < 65536 { assert(t@ =~= record_bytes(self.content_type as u8, vbytes(self.fraqment))); } }
//@endfn
}
//@item net/handshake/mod.rs enum HandshakeType derive=PartialEq,Eq,Structural,Clone,Copy
//@item net/handshake/mod.rs struct Handshake
impl HandshakeType {
//@fn net/handshake/mod.rs impl HandshakeType :: fn new
//@ret r
//@spec
    ensures known_hs(byte as int) == r is Some, r is Some ==> r->0 as u8 == byte,
//@endfn
}
impl<'a> Handshake<'a> {
//@fn net/handshake/mod.rs impl Handshake :: fn from_raw
//@ret r
//@spec
    ensures
        r is Ok <==> hs_ok(buf@),
        r is Ok ==> r->Ok_0.handshake_type as u8 == buf@[0] && r->Ok_0.fraqment@ == buf@.subrange(4, 4 + hs_len(buf@)) && r->Ok_0.raw@ == buf@.subrange(0, 4 + hs_len(buf@)),
        r is Err ==> r->Err_0 == TlsError::DecodeError,
//@start
    proof { if buf@.len() >= 4 { lemma_u24(buf@[1], buf@[2], buf@[3]); } }
//@endfn
//@fn net/handshake/mod.rs impl Handshake :: fn as_bytes
//@ret r
//@spec
    ensures r@ == self.raw@,
//@endfn
//@fn net/handshake/mod.rs impl Handshake :: fn to_bytes
//@ret r
//@spec
    ensures data@.len() < 0x100_0000 ==> r@ == hs_msg(typ as int, data@),
//@start
    let ghost d0 = data@;
    proof { lemma_len_bytes(data@.len() as usize); }
//@end
    proof { if d0.len() < 0x100_0000 { assert(t@ =~= hs_msg(typ as int, d0)); } }
//@endfn
}
}
fn main() {}
