// contracts of the handshake framing: proved in unit framing (check P16), assumed here
//@item net/handshake/mod.rs enum HandshakeType derive=PartialEq,Eq,Structural,Clone,Copy
//@item net/handshake/mod.rs struct Handshake
pub open spec fn hs_len(b: Seq<u8>) -> int { b[1] as int * 65536 + b[2] as int * 256 + b[3] as int }
pub open spec fn known_hs(t: int) -> bool { t == 1 || t == 2 || t == 4 || t == 5 || t == 8 || t == 11 || t == 13 || t == 15 || t == 20 || t == 24 || t == 254 }
pub open spec fn hs_ok(b: Seq<u8>) -> bool { b.len() >= 4 && known_hs(b[0] as int) && b.len() >= 4 + hs_len(b) }
impl<'a> Handshake<'a> {
    #[verifier::external_body]
    fn from_raw(buf: &'a [u8]) -> (r: Result<Handshake<'a>, TlsError>)
    ensures
        r is Ok <==> hs_ok(buf@),
        r is Ok ==> (r->Ok_0).handshake_type as u8 == buf@[0] && (r->Ok_0).fraqment@ == buf@.subrange(4, 4 + hs_len(buf@)) && (r->Ok_0).raw@ == buf@.subrange(0, 4 + hs_len(buf@)),
    { unimplemented!() }
    #[verifier::external_body]
    fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self.raw@, { unimplemented!() }
    #[verifier::external_body]
    fn to_bytes(typ: HandshakeType, data: Vec<u8>) -> (r: Vec<u8>)
    ensures data@.len() < 0x100_0000 ==> r@ == hs_msg(typ as int, data@),
    { unimplemented!() }
}
/// m is one handshake message of this type
pub open spec fn is_hs(m: Seq<u8>, ty: int) -> bool { m.len() >= 4 && m[0] == ty && m.len() == 4 + hs_len(m) }
pub open spec fn body_of(m: Seq<u8>) -> Seq<u8> { m.subrange(4, 4 + hs_len(m)) }
broadcast proof fn lemma_hs(b: Seq<u8>)
    requires hs_ok(b),
    ensures #![trigger b.subrange(0, 4 + hs_len(b))] is_hs(b.subrange(0, 4 + hs_len(b)), b[0] as int), body_of(b.subrange(0, 4 + hs_len(b))) == b.subrange(4, 4 + hs_len(b)),
{ let m = b.subrange(0, 4 + hs_len(b)); assert(m[0] == b[0] && m[1] == b[1] && m[2] == b[2] && m[3] == b[3]); assert(body_of(m) =~= b.subrange(4, 4 + hs_len(b))); }
broadcast proof fn lemma_hs_msg(ty: int, d: Seq<u8>)
    requires d.len() < 0x100_0000, 0 <= ty < 256,
    ensures #![trigger hs_msg(ty, d)] is_hs(hs_msg(ty, d), ty), body_of(hs_msg(ty, d)) == d,
{ let m = hs_msg(ty, d); assert(hs_len(m) == d.len()); assert(body_of(m) =~= d); }
